"""C18: daemon dependencies are honoured for every dependency graph."""
import itertools
import json
import selectors

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
import vtelem.telemetry.server as server_module
from vtelem.daemon import DaemonBase
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.manager import DaemonManager
from vtelem.enums.daemon import DaemonOperation, DaemonState
from vtelem.factories.daemon_manager import create_daemon_manager_commander
from vtelem.mtu import Host
from vtelem.telemetry.server import TelemetryServer
from vtelem.types.telemetry_server import Service, default_services

from mc.checks.util_net import VirtualLoopSelector, virtual_servers
from mc.explore import Prune, Scenario, Violation

virtual_servers()
if hasattr(server_module, "discover_ipv4_mtu"):
    # no name lookups
    server_module.discover_ipv4_mtu = lambda *_, **__: 1500

ASSUMPTIONS = [
    "every acyclic relation of up to 4 (thorough: 5) daemons; cyclic relations "
    "are not judged",
    "an operation on a single named daemon acts on that daemon only",
    "a dependency which was running already is one that started, whatever its "
    "own dependencies do; what depends on it only through it is left open",
    "servers: loopback sockets, waiting is virtual, one schedule per history",
]
OPS = {
    "vtelem.daemon.manager": sched.COARSE,
    "vtelem.daemon": {"STORE_ATTR"},
}


def dags(n):
    """Every acyclic dependency relation of n daemons, in every order."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    out = []
    for bits in range(1 << len(pairs)):
        deps = [[] for _ in range(n)]
        for k, (i, j) in enumerate(pairs):
            if bits >> k & 1:
                deps[i].append(j)
        left = set(range(n))
        while left:
            free = {i for i in left if not left & set(deps[i])}
            if not free:
                break
            left -= free
        if not left:
            out.append(deps)
    return out


DAGS = {n: dags(n) for n in (1, 2, 3, 4)}
BIG = []


def five():
    """Those of five daemons, up to the names: dependencies on any earlier
    one in each of the registration orders would repeat too much, so one
    order each: forward and backward."""
    if not BIG:
        pairs = [(i, j) for i in range(5) for j in range(i)]
        for bits in range(1 << len(pairs)):
            deps = [[] for _ in range(5)]
            for k, (i, j) in enumerate(pairs):
                if bits >> k & 1:
                    deps[i].append(j)
            BIG.append(deps)
    return BIG


class Fake(DaemonBase):
    """A daemon without a thread, which may fail to do what is asked."""

    def __init__(self, name, log, state="idle", slow=False):
        super().__init__(name)
        self.log = log
        self.slow = slow
        self.bad = state in ("bad", "wary")
        if state in ("running", "paused"):
            self.set_state(DaemonState[state.upper()])

    def act(self, what, frm, to, *args, **kwargs):
        self.log.append((what, self.name, args, tuple(sorted(kwargs.items()))))
        if self.slow:
            sched.v_sleep(0.01)
        if self.bad or self.state not in frm:
            return False
        return self.set_state(to)

    def start(self, *args, **kwargs):
        return self.act(
            "start", [DaemonState.IDLE], DaemonState.RUNNING, *args, **kwargs
        )

    def stop(self, *args, **kwargs):
        return self.act(
            "stop",
            [DaemonState.RUNNING, DaemonState.PAUSED],
            DaemonState.IDLE,
            *args,
            **kwargs,
        )

    def pause(self):
        return self.act("pause", [DaemonState.RUNNING], DaemonState.PAUSED)

    def unpause(self):
        return self.act("unpause", [DaemonState.PAUSED], DaemonState.RUNNING)

    def restart(self, *args, **kwargs):
        return self.act(
            "restart",
            [DaemonState.RUNNING, DaemonState.PAUSED],
            DaemonState.RUNNING,
            *args,
            **kwargs,
        ) or not self.bad


def closure(deps):
    """Transitive dependencies."""
    n = len(deps)
    out = [set(d) for d in deps]
    for _ in range(n):
        for i in range(n):
            for j in list(out[i]):
                out[i] |= out[j]
    return out


def judge_start(ch, deps, before, log, after, result, args=((), ())):
    """What starting all of them did."""
    n = len(deps)
    trans = closure(deps)
    at = {}
    for pos, (what, name, pargs, kwargs) in enumerate(log):
        ch.equal(what, "start", "operation performed")
        num = int(name[1:])
        ch.check(num not in at, f"{name} is started twice")
        ch.equal((pargs, kwargs), args, "arguments")
        at[num] = pos
    order = topo(deps)
    verdict = {}  # True: (will be) running, False: not
    opened = {}
    for i in order:
        state = before[i]
        bad_dep = any(not verdict[j] for j in deps[i])
        # reached only through a running daemon
        opened[i] = not bad_dep and any(
            not verdict[j] for j in trans[i]
        )
        if state == "running":
            verdict[i] = True
            ch.check(i not in at, f"d{i} is started while it runs")
            continue
        ok = state == "idle" and not bad_dep
        verdict[i] = ok
        if opened[i]:
            # follow what the code did
            verdict[i] = ok and i in at
            continue
        if bad_dep:
            ch.check(i not in at, f"d{i} is started without a dependency")
        else:
            ch.check(i in at, f"d{i} is not started")
    for i in at:
        for j in trans[i]:
            if before[j] != "running" and j in at:
                ch.check(at[j] < at[i], f"d{i} is started before d{j}")
    for i in range(n):
        want = "running" if verdict[i] else (
            "idle" if before[i] != "paused" else "paused"
        )
        ch.equal(after[f"d{i}"], want, f"state of d{i}")
    if result is not None:
        every = all(verdict.values())
        if every or not any(opened.values()):
            ch.equal(result, every, "overall success")
        else:
            ch.equal(result, False, "overall success")


def topo(deps):
    out = []
    while len(out) < len(deps):
        for i, d in enumerate(deps):
            if i not in out and all(j in out for j in d):
                out.append(i)
    return out


def build(deps, states, log, slow=False, backward=False):
    """A manager with these daemons."""
    man = DaemonManager()
    daemons = [Fake(f"d{i}", log, s, slow) for i, s in enumerate(states)]
    idx = list(range(len(deps)))
    if backward:
        idx.reverse()
    for i in idx:
        names = [f"d{j}" for j in deps[i]]
        if not man.add_daemon(daemons[i], names or None):
            raise Violation(f"d{i} can not be registered")
    return man, daemons


def start_all(ch, how, man):
    """Start all, one way or another: (result, arguments expected)."""
    if how == "enum":
        return man.perform_all(DaemonOperation.START, 1, key="v"), (
            (1,),
            (("key", "v"),),
        )
    if how == "str":
        return man.perform_str_all("start"), ((), ())
    daemon = CommandQueueDaemon("cmd")
    answers = []
    create_daemon_manager_commander(
        man, daemon, lambda ok, msg: answers.append((ok, msg))
    )
    daemon.function["consumer"] = None
    daemon.enqueue(
        {"command": "daemon", "data": {"operation": "start",
                                       "daemons": ["all"]}}
    )
    daemon.queue.put(None)
    daemon.run()
    ch.equal(len(answers), 1, "answers")
    states = json.loads(answers[0][1])
    ch.check(
        all(states.get(n) == s for n, s in man.states().items()),
        f"states told: {states}",
    )
    return answers[0][0], ((), ())


def graphs(n, kinds, hows, twice=True, relations=None):
    """Every relation and every state the daemons may be in."""

    def body(ch):
        sched.watch({})
        rels = relations() if relations else DAGS[n]
        deps = rels[ch.choose(len(rels))]
        states = [ch.pick(kinds) for _ in range(n)]
        backward = ch.flag() if relations else False
        how = ch.pick(hows)
        if relations is None and ch.flag("reversed lists"):
            if not any(len(d) > 1 for d in deps):
                raise Prune("nothing to reverse")
            deps = [d[::-1] for d in deps]
        log = []
        man, daemons = build(deps, states, log, backward=backward)
        known = set(man.states())
        result, args = start_all(ch, how, man)
        judge_start(ch, deps, states, log, man.states(), result, args)
        first = [e[1] for e in log]
        if twice:
            # what failed is repaired: the rest is started
            now = man.states()
            again = [now[f"d{i}"] for i in range(n)]
            for daemon in daemons:
                daemon.bad = False
            log.clear()
            result, args = start_all(ch, how, man)
            judge_start(ch, deps, again, log, man.states(), result, args)
        ch.equal(set(man.states()), known, "daemons known")
        ch.outcome((deps, states, first, result))

    return body


def operations(n):
    """Other operations are performed on each, and told truthfully."""
    allowed = {
        "stop": ({"running", "paused"}, {"idle"}),
        "pause": ({"running"}, {"paused"}),
        "unpause": ({"paused"}, {"running", "idle"}),
        "restart": ({"running", "paused", "idle"}, set()),
    }

    def body(ch):
        sched.watch({})
        deps = DAGS[n][ch.choose(len(DAGS[n]))]
        states = [ch.pick(["running", "paused", "idle", "bad"])
                  for _ in range(n)]
        oper = ch.pick(sorted(allowed))
        as_str = ch.flag("string")
        log = []
        man, daemons = build(deps, states, log)
        for daemon, state in zip(daemons, states):
            if state == "bad":
                daemon.set_state(DaemonState.RUNNING)
        if as_str:
            result = man.perform_str_all(oper)
        else:
            result = man.perform_all(DaemonOperation[oper.upper()])
        goal, skip = allowed[oper]
        want = True
        expect = set()
        for i, state in enumerate(states):
            real = "running" if state == "bad" else state
            if real in skip:
                continue
            expect.add(f"d{i}")
            if state == "bad" and real in goal:
                want = False
            elif real not in goal:
                want = False
        names = [e[1] for e in log]
        ch.equal(set(names), expect, f"daemons told to {oper}")
        ch.equal(len(names), len(expect), "operations performed")
        ch.equal(result, want, f"overall success of {oper}")
        ch.outcome((deps, states, oper, names))

    return body


UNKNOWN = ["x", "", "D0", "d9", "d0 ", None, 0]


def history(depth):
    """Registering, looking up and operating, for every history."""

    def body(ch):
        sched.watch({})
        log = []
        man = DaemonManager()
        have = {}  # name -> (daemon, deps)
        for _ in range(depth):
            act = ch.pick(
                ["add", "duplicate", "unknown", "known", "start", "one",
                 "stop", "end"]
            )
            log.clear()
            if act == "end":
                break
            if act == "add":
                if len(have) >= 3:
                    raise Prune("enough")
                name = f"d{len(have)}"
                # also dependencies which are (still) missing
                deps = ch.pick([[], ["d0"], ["d1"], ["nope"], ["d2", "d0"]])
                if name in deps:
                    raise Prune("on itself")
                daemon = Fake(name, log)
                ch.equal(man.add_daemon(daemon, deps or None), True, "added")
                have[name] = (daemon, deps)
            elif act == "duplicate":
                if not have:
                    raise Prune("nothing to duplicate")
                name = ch.pick(sorted(have))
                other = Fake(name, log)
                ch.equal(
                    man.add_daemon(other, ch.pick([None, ["nope"]])),
                    False,
                    "duplicate added",
                )
                ch.check(man.get(name) is have[name][0], "daemon replaced")
            elif act == "unknown":
                how = ch.pick(["names", "operation"])
                names = [u for u in UNKNOWN if u not in have]
                for name in names if how == "names" else []:
                    ch.check(man.get(name) is None, f"{name!r} is known")
                    ch.equal(
                        man.perform(name, DaemonOperation.START),
                        False,
                        "operation on an unknown daemon",
                    )
                    ch.equal(
                        man.perform_str(name, "start"),
                        False,
                        "operation on an unknown daemon",
                    )
                if how == "operation":
                    ch.equal(man.perform_str_all("jump"), False, "unknown")
                    for real in have:
                        ch.equal(
                            man.perform_str(real, "jump"), False, "unknown"
                        )
                ch.check(not log, f"performed {log}")
            elif act == "known":
                for name, (daemon, _) in have.items():
                    ch.check(man.get(name) is daemon, f"lookup of {name}")
            elif act == "start":
                if cyclic({n: d for n, (_, d) in have.items()}):
                    raise Prune("cyclic")
                before = man.states()
                result = man.perform_all(DaemonOperation.START)
                good = startable(have)
                names = [e[1] for e in log]
                must = {
                    n for n in good if before[n] == "idle"
                }
                # what runs already is left alone
                never = {n for n in have if before[n] != "idle"}
                ch.check(must <= set(names), f"started {names}, not {must}")
                ch.check(not never & set(names), f"started {names}")
                for pos, name in enumerate(names):
                    for dep in have[name][1]:
                        ch.check(
                            dep in have
                            and (before[dep] == "running"
                                 or dep in names[:pos]),
                            f"{name} is started without {dep}",
                        )
                ch.equal(len(set(names)), len(names), "started once")
                if len(good) == len(have):
                    ch.equal(result, True, "overall success")
                elif any(before[n] == "idle" for n in have if n not in good):
                    ch.equal(result, False, "overall success")
            elif act == "one":
                if not have:
                    raise Prune("nothing")
                name = ch.pick(sorted(have))
                oper = ch.pick(["start", "stop"])
                before = man.states()
                ch.equal(man.perform_str(name, oper), True, f"{oper} {name}")
                after = man.states()
                before[name] = "running" if oper == "start" else "idle"
                ch.equal(after, before, "states")
            else:
                result = man.perform_all(DaemonOperation.STOP)
                # a missing dependency may count as a failure
                if len(startable(have)) == len(have):
                    ch.equal(result, True, "stopping all")
                ch.check(
                    all(s == "idle" for s in man.states().values()),
                    f"not stopped: {man.states()}",
                )
            ch.equal(set(man.states()), set(have), "daemons known")
            ch.equal(
                man.states(False),
                {n: d.get_state() for n, (d, _) in have.items()},
                "states",
            )
            ch.state((sorted((n, d[1]) for n, d in have.items()),
                      sorted(man.states().items())))
        ch.outcome(sorted(man.states().items()))

    return body


def cyclic(deps):
    left = dict(deps)
    while left:
        free = [n for n, d in left.items() if not any(x in left for x in d)]
        if not free:
            return True
        for name in free:
            del left[name]
    return False


def startable(have):
    """Daemons all of whose dependencies exist, transitively."""
    good = set(have)
    while True:
        bad = {n for n in good if any(d not in good for d in have[n][1])}
        if not bad:
            return good
        good -= bad


# ------------------------------------------------------------ schedules


def together(deps, how):
    """Two threads operate on all of them, or register, at once."""

    def body(ch):
        sched.watch(OPS)
        log = []
        states = ["idle"] * len(deps)
        man, _ = build(deps, states, log, slow=True)
        res = {}
        twins = [Fake("new", log, slow=True) for _ in range(2)]

        def start(key):
            res[key] = man.perform_all(DaemonOperation.START)

        def add(key):
            mine = twins[len([k for k in res if k.startswith("add")])]
            res["add" + key] = None
            res["add" + key] = (man.add_daemon(mine, ["d0"]), mine)

        def look(key):
            res[key] = (man.get("nope"), man.get("d0"))

        acts = {"start": start, "add": add, "look": look}

        def main():
            threads = [
                sched.spawn(f"t{n}", lambda k=f"t{n}", a=a: acts[a](k))
                for n, a in enumerate(how)
            ]
            sched.join_all(threads)

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        added = [v for k, v in res.items() if k.startswith("add")]
        if added:
            ch.equal(
                sorted(a for a, _ in added),
                [False] * (len(added) - 1) + [True],
                "registered",
            )
            winner = [d for a, d in added if a][0]
            ch.check(man.get("new") is winner, "another daemon is registered")
        names = [e[1] for e in log if e[1] != "new"]
        if "start" in how:
            ch.equal(sorted(names), [f"d{i}" for i in range(len(deps))],
                     "started")
            for i, dep in enumerate(deps):
                for j in dep:
                    ch.check(names.index(f"d{j}") < names.index(f"d{i}"),
                             f"d{i} before d{j}")
            news = [e[1] for e in log].count("new")
            ch.check(news <= 1, "started twice")
            for key, val in res.items():
                if how[int(key[-1])] == "start":
                    ch.equal(val, True, "overall success")
        for key, val in res.items():
            if how[int(key[-1])] == "look":
                ch.check(val[0] is None and val[1] is not None, "lookup")
        ch.equal(
            set(man.states()),
            {f"d{i}" for i in range(len(deps))} | ({"new"} if added else set()),
            "daemons known",
        )
        ch.outcome([e[1] for e in log])

    return body


# --------------------------------------------------------------- servers

NAMES = ("http", "websocket_command", "websocket_telemetry", "tcp_telemetry")
LOCAL = Host("127.0.0.1", 0)


class Log:
    """State changes of daemons, in order."""

    def __init__(self):
        self.seen = []

    def follow(self, daemon):
        def change(_, state, __):
            self.seen.append((daemon.name, state.name.lower()))

        daemon.function["state_change"] = change


def server_with(enabled, log):
    """A server offering these services."""
    serv = TelemetryServer(
        0.01,
        0.1,
        0.25,
        app_id_basis=0.5,
        services=default_services(
            **{n: Service(n, LOCAL, n in enabled) for n in NAMES}
        ),
    )
    for name in serv.daemons.states():
        log.follow(serv.daemons.get(name))
    log.follow(serv)
    return serv


def servers(ch):
    """A server offers every subset of its services, and applications."""
    sched.watch({})
    enabled = {n for n in NAMES if ch.flag(n)}
    app = ch.pick(["none", "before", "after", "duplicate", "late-duplicate"])
    fail = ch.pick([None, "stream", "telemetry"])
    log = Log()
    calls = []

    def setup(*_):
        calls.append("setup")

    def loop(*_):
        calls.append("loop")

    def twin(*_):
        calls.append("twin")

    def main():
        serv = server_with(enabled, log)
        must = {"time", "telemetry", "stream", "command"} | {
            n for n in enabled if n != "http"
        }
        try:
            ch.equal(set(serv.daemons.states()), must, "daemons")
            telem = serv.daemons.get("telemetry")
            if app in ("before", "duplicate", "late-duplicate"):
                ch.equal(serv.register_application("app", 0.1, setup, loop),
                         True, "registered")
                log.follow(serv.daemons.get("app"))
                must.add("app")
            if app == "duplicate":
                ch.equal(serv.register_application("app", 0.1, twin, twin),
                         False, "duplicate registered")
                ch.equal(
                    serv.register_application("stream", 0.1, twin, twin),
                    False,
                    "duplicate registered",
                )
            ch.equal(set(serv.daemons.states()), must, "daemons")
            if fail is not None:
                # running already, so to say: it can't be started
                serv.daemons.get(fail).set_state(DaemonState.PAUSED)
                try:
                    serv.start_all()
                    ch.check(False, "started without a dependency")
                except AssertionError:
                    pass
                states = serv.daemons.states()
                deps = {"stream": ["websocket_command"],
                        "telemetry": ["app"]}[fail]
                for name in deps:
                    if name in states:
                        ch.equal(states[name], "idle",
                                 f"state of {name} without {fail}")
                serv.daemons.get(fail).set_state(DaemonState.IDLE)
                sched.v_sleep(0.5)
                serv.daemons.perform_all(DaemonOperation.STOP)
            else:
                serv.start_all()
                sched.v_sleep(0.5)
                states = serv.daemons.states()
                ch.equal(set(states), must, "daemons")
                ch.check(all(s == "running" for s in states.values()),
                         f"not running: {states}")
                ch.equal(serv.get_state_str(),
                         "running" if "http" in enabled else "idle", "http")
                if app == "after":
                    ch.equal(
                        serv.register_application("app", 0.1, setup, loop),
                        True,
                        "registered",
                    )
                elif app == "late-duplicate":
                    daemon = serv.daemons.get("app")
                    stopped = ch.flag("stopped")
                    if stopped:
                        ch.equal(daemon.stop(), True, "stopped")
                    starts = telem.get_metric("app.starts")
                    ch.equal(
                        serv.register_application("app", 0.1, twin, twin),
                        False,
                        "duplicate registered",
                    )
                    ch.check(serv.daemons.get("app") is daemon, "replaced")
                    ch.equal(daemon.get_state_str(),
                             "idle" if stopped else "running",
                             "state of the registered application")
                    ch.equal(telem.get_metric("app.starts"), starts, "starts")
                sched.v_sleep(0.5)
                if app == "after":
                    ch.equal(serv.daemons.states()["app"], "running", "app")
                serv.stop_all()
                states = serv.daemons.states()
                ch.check(all(s == "idle" for s in states.values()),
                         f"not stopped: {states}")
                if app not in ("none",):
                    ch.check("setup" in calls and "loop" in calls,
                             "the application doesn't run")
                    ch.equal(calls.count("setup"), 1, "times set up")
                ch.check("twin" not in calls, "a duplicate runs")
                begun = [n for n, s in log.seen if s == "starting"]
                for name, dep in (("websocket_command", "stream"),
                                  ("app", "telemetry")):
                    if name in begun:
                        ch.check(begun.index(dep) < begun.index(name),
                                 f"{name} is started before {dep}")
                for name in must - {"app"}:
                    ch.equal(begun.count(name), 1, f"starts of {name}")
        finally:
            close(serv)

    real = selectors.DefaultSelector
    selectors.DefaultSelector = VirtualLoopSelector
    try:
        done = sched.run(
            ch, main, timers=False, preempt=False, order_cost=1
        )
    finally:
        selectors.DefaultSelector = real
    for name, err in sched.errors(done):
        if isinstance(err, Violation):
            raise err
        raise Violation(f"{name} raised {type(err).__name__}: {err}")
    ch.outcome((sorted(enabled), app, fail, [n for n in log.seen]))


def close(serv):
    """Free what the server holds."""
    for daemon in list(serv.daemons.daemons.values()):
        for attr in ("eloop",):
            loop = getattr(daemon, attr, None)
            if loop is not None and not loop.is_closed():
                loop.close()
        if hasattr(getattr(daemon, "server", None), "server_close"):
            daemon.server.server_close()
    serv.server.server_close()


CHAIN = [[], [0], [1]]
DIAMOND = [[1, 2], [3], [3], []]


def scenarios(tier):
    deep = tier == "thorough"
    every = ["idle", "bad", "running", "paused"]
    out = [
        Scenario("graphs-3", graphs(3, every, ["enum", "str", "command"])),
        Scenario("graphs-4", graphs(4, ["idle", "bad", "running"], ["enum"])),
        Scenario("operations", operations(3)),
        Scenario("history", history(5 if deep else 4)),
        Scenario("together-chain", together(CHAIN, ["start", "start"]), 2),
        Scenario("together-look", together(CHAIN, ["start", "look"]), 2),
        Scenario("together-add", together(CHAIN, ["start", "add"]), 2),
        Scenario("together-adds", together([[]], ["add", "add", "look"]), 2),
        Scenario("servers", servers, 0),
    ]
    if deep:
        out += [
            Scenario("servers-order", servers, 1),
            Scenario("graphs-4-states", graphs(4, every, ["enum", "command"])),
            Scenario(
                "graphs-5",
                graphs(5, ["idle", "bad", "running"], ["enum"], True, five),
            ),
            Scenario("together-3", together(CHAIN, ["start"] * 3), 2),
            Scenario("together-diamond", together(DIAMOND, ["start"] * 2), 3),
        ]
    return out
