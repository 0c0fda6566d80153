"""C16: every command gets exactly one answer and none can kill the service."""
from mc import sched

sched.install()

# pylint: disable=wrong-import-position
import json

import websockets

from vtelem.daemon import DaemonBase
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.manager import DaemonManager
from vtelem.enums.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.factories.daemon_manager import create_daemon_manager_commander
from vtelem.factories.telemetry_environment import create_channel_commander
from vtelem.factories.udp_client_manager import create_udp_client_commander
from vtelem.factories.websocket_daemon import commandable_websocket_daemon
from vtelem.classes.user_enum import user_enum
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from mc.checks.c15 import QuietEnv
from mc.checks.util_net import udp_manager, udp_receiver
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "handlers and callbacks raise exceptions, they do not exit the interpreter "
    "or block forever",
    "a command with several handlers is answered once by each of them, in the "
    "order of registration",
    "execute() gives up after its timeout (2 s): its answer is then failure "
    "although the command may run later",
    "an operation on a list of daemons is carried out on each named daemon; "
    "failure is reported when one of them failed",
]
FINE = {
    "vtelem.daemon.command_queue": {
        "LOAD_ATTR", "STORE_ATTR", "BINARY_SUBSCR", "STORE_DEREF",
        "LOAD_DEREF", "CALL",
    },
    "vtelem.daemon.queue": {"LOAD_ATTR", "STORE_ATTR", "CALL"},
}
FEW = {
    "vtelem.daemon.command_queue": {"STORE_DEREF", "LOAD_DEREF", "CALL"},
}
LOCKS: dict = {}


class Simple(DaemonBase):
    """A daemon without a thread."""

    def start(self, *_, **__):
        return self.state == DaemonState.IDLE and self.set_state(
            DaemonState.RUNNING
        )

    def stop(self, *_, **__):
        return self.state == DaemonState.RUNNING and self.set_state(
            DaemonState.IDLE
        )


class World:
    """A command daemon with everything registered on it."""

    def __init__(self, udp=False, quiet=False):
        self.env = env = (
            QuietEnv()
            if quiet
            else TelemetryEnvironment(1500, metrics_rate=1.0, app_id_basis=0.5)
        )
        self.daemon = daemon = CommandQueueDaemon("cmd", env)
        self.calls = []
        self.seen = []  # result callbacks of consumers
        self.answers = {}
        self.order = []
        calls = self.calls

        def echo(data):
            calls.append(("echo", data["tag"]))
            return True, f"echo {data['tag']}"

        def fail(data):
            calls.append(("fail", data["tag"]))
            return False, "no"

        def boom(data):
            calls.append(("boom", data["tag"]))
            raise KeyError("boom")

        def shape(data):
            calls.append(("shape", data["tag"]))
            return None

        def first(data):
            calls.append(("first", data["tag"]))
            return True, "first"

        def second(data):
            calls.append(("second", data["tag"]))
            return False, "second"

        def seen(result, message):
            self.seen.append((result, message))

        def bad(result, message):
            self.seen.append((result, message))
            raise ValueError("callback")

        daemon.register_consumer("echo", echo, seen, "echoes")
        daemon.register_consumer("fail", fail, help_msg="fails")
        daemon.register_consumer("boom", boom, seen)
        daemon.register_consumer("shape", shape)
        daemon.register_consumer("two", first, None, "one")
        daemon.register_consumer("two", second, None, "two")
        daemon.register_consumer("badcb", echo, bad, "callback raises")
        self.manager = DaemonManager()
        self.subs = {n: Simple(n, env) for n in ("a", "b")}
        for sub in self.subs.values():
            assert self.manager.add_daemon(sub)
        create_daemon_manager_commander(self.manager, daemon)
        env.add_enum(user_enum("mode", {0: "off", 1: "on"}))
        self.byte = env.add_channel("byte", Primitive.UINT8, 1.0)
        self.mode = env.add_enum_channel("mode", "mode", 1.0)
        create_channel_commander(env, daemon)
        self.udp = None
        self.recv = []
        if udp:
            writer, _ = default_writer("w", None, env)
            self.udp = udp_manager(writer)
            create_udp_client_commander(self.udp, daemon)
            self.recv.append(udp_receiver())
        self.commands = {
            "help": 1, "echo": 1, "fail": 1, "boom": 1, "shape": 1, "two": 2,
            "badcb": 1, "daemon": 1, "channel": 1,
        }
        if udp:
            self.commands["udp"] = 1

    def close(self):
        if self.udp is not None:
            self.udp.remove_all()
        for sock in self.recv:
            sock.close()

    def snapshot(self):
        """What commands may change."""
        env = self.env
        state = {
            c: env.get_value(i) for c, i in (("byte", self.byte), ("mode", self.mode))
        }
        state.update({n: d.get_state_str() for n, d in self.subs.items()})
        state["running"] = self.daemon.get_state_str()
        if self.udp is not None:
            state["udp"] = sorted(self.udp.clients)
        return state

    def ask(self, key, fails=False):
        """A callback for one command."""
        self.answers[key] = []

        def answer(result, message):
            self.answers[key].append((result, message))
            self.order.append(key)
            if fails:
                raise OSError("callback")

        return answer


def chan(**data):
    return {"command": "channel", "data": data}


def dmn(**data):
    return {"command": "daemon", "data": data}


def udp(**data):
    return {"command": "udp", "data": data}


# (command, expected answers, calls, effect); an expected answer is a verdict
# or a verdict and its message
NOPE = object()
ODD = [None, 0, 1.5, True, "echo", b"echo", [], ["command"], (), {}, set()]
ODD_NAMES = [None, 0, True, 1.5, [], {}, ["echo"], ("echo",), "", "ECHO", "nope",
             "echo ", "__class__"]


def plain(what, data=None):
    return {"command": what} if data is None else {"command": what, "data": data}


def alphabet():
    """Every kind of command."""
    out = []
    for item in ODD:
        out.append((item, [False], [], {}))
    for name in ODD_NAMES:
        out.append(({"command": name, "data": {"tag": 1}}, [False], [], {}))
    out.append(({"Command": "echo"}, [False], [], {}))
    ok = [(True, "echo 7")]
    out.append((plain("echo", {"tag": 7}), ok, [("echo", 7)], {}))
    for data in (None, 5, "tag", [], [("tag", 7)], {}, {"other": 1}):
        out.append(
            (plain("echo", data), [(True, "echo None")], [("echo", None)], {})
        )
    cyclic: dict = {"tag": 7}
    cyclic["self"] = cyclic
    odd_data = [{"tag": 7, "x": object()}, {"tag": 7, (1, 2): 3},
                {"tag": 7, 5: b"5"}, {"tag": 7, "n": float("nan")}, cyclic]
    for data in odd_data:
        out.append((plain("echo", data), ok, [("echo", 7)], {}))
    for data in ({"tag": 7}, odd_data[0]):
        out.append((plain("fail", data), [(False, "no")], [("fail", 7)], {}))
        out.append((plain("boom", data), [False], [("boom", 7)], {}))
        out.append((plain("shape", data), [False], [("shape", 7)], {}))
        out.append((plain("badcb", data), ok, [("echo", 7)], {}))
        out.append((
            plain("two", data), [(True, "first"), (False, "second")],
            [("first", 7), ("second", 7)], {},
        ))
    out.append((plain("help"), [True], [], {}))
    out.append((plain("help", {"indent": 1}), [True], [], {}))
    out.append((plain("help", {"command": "echo"}), [True], [], {}))
    for name in ("nope", "ECHO", "", 5, [], {}, ["echo"]):
        out.append((plain("help", {"command": name}), [False], [], {}))
    return out


def channel_commands():
    out = []
    for data in (None, 5, [], {}):
        out.append((plain("channel", data), [False], [], {}))
    odd = [None, 5, [], {}, True, "nope", ""]
    for item in odd:
        out.append((chan(operation=item, channel_name="byte", value=1),
                    [False], [], {}))
        out.append((chan(operation="set", channel_name=item, value=1),
                    [False], [], {}))
        out.append((chan(operation="set", channel_name="mode", value=item),
                    [False], [], {}))
        if item != 5 and item is not True:
            out.append((chan(operation="set", channel_name="byte", value=item),
                        [False], [], {}))
            out.append((chan(operation="increment", channel_name="byte",
                             value=item), [False], [], {}))
            out.append((chan(operation="decrement", channel_name="byte",
                             value=item), [False], [], {}))
        out.append((chan(operation="set", channel_name="byte", channel_id=item,
                         value=1), [False], [], {}))
        if item is not True:
            out.append((chan(operation="set", channel_id=item, value=1)
                        if item != 5 else
                        chan(operation="set", channel_id=999, value=1),
                        [False], [], {}))
    out.append((chan(operation="set", value=1), [False], [], {}))
    out.append((chan(operation="set", channel_name="byte"), [False], [], {}))
    out.append((chan(operation="increment", channel_name="mode"),
                [False], [], {}))
    out.append((chan(operation="set", channel_name="byte", value=300),
                [False], [], {}))
    out.append((chan(operation="set", channel_name="byte", value=9), [True], [],
                {"byte": 9}))
    out.append((chan(operation="set", channel_name="mode", value="on"), [True],
                [], {"mode": 1}))
    out.append((chan(operation="get", channel_name="mode"), [True], [], {}))
    return out


def daemon_commands():
    out = []
    for data in (None, 5, [], {}):
        out.append((plain("daemon", data), [False], [], {}))
    for item in (None, 5, [], {}, True, "nope", "", "none"):
        out.append((dmn(operation=item, daemons=["a"]), [False], [], {}))
        if item != []:
            out.append((dmn(operation="start", daemons=item), [False], [], {}))
        out.append((dmn(operation="start", daemons=[item]), [False], [], {}))
    for item in (None, 5, [], {}, ["b"]):
        out.append((dmn(operation="start", daemons=["a", item]),
                    [False], [], {}))
    out.append((dmn(operation="start"), [False], [], {}))
    out.append((dmn(operation="pause", daemons=["a"]), [None], [], None))
    out.append((dmn(operation="start", daemons=["a"]), [True], [],
                {"a": "running"}))
    out.append((dmn(operation="START", daemons=["b", "a"]), [True], [],
                {"a": "running", "b": "running"}))
    out.append((dmn(operation="start", daemons=["nope", "a"]), [False], [],
                {"a": "running"}))
    out.append((dmn(operation="stop", daemons=["all"]), [True], [],
                {"a": "idle", "b": "idle"}))
    out.append((dmn(operation="states"), [True], [], {}))
    return out


def udp_commands(port):
    out = []
    for data in (None, 5, [], {}):
        out.append((plain("udp", data), [False], [], {}))
    odd = [None, [], {}, "nope", 1.5]
    for item in odd:
        out.append((udp(operation=item, host="127.0.0.1", port=port),
                    [False], [], {}))
        out.append((udp(operation="add", host="127.0.0.1", port=item),
                    [False], [], {}))
        if item not in (None, "nope"):
            out.append((udp(operation="add", host=item, port=port),
                        [False], [], {}))
        out.append((udp(operation="remove", id=item), [False], [], {}))
        out.append((udp(operation="list", id=item), [False], [], {}))
    for bad in (-1, 1 << 16, 1 << 70):
        out.append((udp(operation="add", host="127.0.0.1", port=bad),
                    [False], [], {}))
    out.append((udp(operation="add", host="127.0.0.1"), [False], [], {}))
    out.append((udp(operation="add", port=port), [False], [], {}))
    out.append((udp(operation="add"), [False], [], {}))
    out.append((udp(operation="remove"), [False], [], {}))
    out.append((udp(operation="list"), [True], [], {}))
    out.append((udp(operation="add", host="127.0.0.1", port=port), [True], [],
                "add"))
    out.append((udp(operation="remove", id="first"), [None], [], "remove"))
    return out


FULL = alphabet()
CHANNEL = channel_commands()
DAEMON = daemon_commands()
NUDP = len(udp_commands(1))
GOOD = (plain("echo", {"tag": 1}), [(True, "echo 1")], [("echo", 1)], {})
SHORT = [
    GOOD,
    (None, [False], [], {}),
    (plain("nope"), [False], [], {}),
    (plain([1]), [False], [], {}),
    (plain("boom", {"tag": 2}), [False], [("boom", 2)], {}),
    (plain("shape", {"tag": 2}), [False], [("shape", 2)], {}),
    (plain("badcb", {"tag": 3}), [(True, "echo 3")], [("echo", 3)], {}),
    (plain("fail", {"tag": 4, "x": object()}), [(False, "no")],
     [("fail", 4)], {}),
    (plain("help"), [True], [], {}),
    (plain("help", {"command": "nope"}), [False], [], {}),
    (chan(operation="set", channel_name="mode", value="nope"), [False], [], {}),
    (chan(operation="set", channel_name="byte", value=9), [True], [],
     {"byte": 9}),
    (dmn(operation=None, daemons=["a"]), [False], [], {}),
    (dmn(operation="start", daemons=["a", []]), [False], [], {}),
    (dmn(operation="start", daemons=["b"]), [True], [], {"b": "running"}),
]


def judge_help(ch, world, message, only=None):
    """Help lists exactly the registered commands."""
    data = json.loads(message)
    want = {only} if only is not None else set(world.commands)
    ch.equal(set(data), want, "commands listed by help")
    for name, lines in data.items():
        ch.equal(len(lines), world.commands[name], f"handlers of {name}")
    if "echo" in data:
        ch.equal(data["echo"], ["echoes"], "help of echo")
    if "two" in data:
        ch.equal(data["two"], ["one", "two"], "help of two")


def expect(world, item, model, before):
    """What a command should do, given what was done before it."""
    cmd, answers, calls, effect = item
    if effect == "add":
        world.model_udp += 1
        model["udp"] = sorted(before["udp"] + [world.model_udp - 1])
    elif effect == "remove":
        if before["udp"]:
            model["udp"] = before["udp"][1:]
            answers = [True]
        else:
            answers = [False]
    elif effect is None:
        answers = [before["a"] == "running"]
        if answers[0]:
            model["a"] = "paused"
    else:
        model.update(effect)
    if cmd == dmn(operation="stop", daemons=["all"]):
        # a paused daemon refuses to stop
        bad = [n for n in ("a", "b") if before[n] == "paused"]
        answers = [not bad]
        for name in bad:
            model[name] = "paused"
    if isinstance(cmd, dict) and cmd.get("command") == "daemon" and isinstance(
        effect, dict
    ) and "running" in effect.values():
        bad = [n for n in effect if before[n] == "paused"]
        for name in bad:
            model[name] = "paused"
        if bad:
            answers = [False]
    return answers, calls


def serve(world):
    """The daemon's own loop over what is queued, until it is stopped."""
    world.daemon.queue.put(None)
    world.daemon.run()


def drive(ch, world, items, raising):
    """Queue the commands, serve them, compare with the model."""
    world.model_udp = 0
    model = world.snapshot()
    metrics = {"command": 0, "success": 0, "failure": 0, "rejected": 0}
    want_calls, wants = [], []
    by_steps = ch.flag("one at a time")
    for num, item in enumerate(items):
        cmd = item[0]
        if item[3] == "remove":
            cmd = udp(operation="remove", id=model["udp"][0]
                      if model["udp"] else 0)
        callback = world.ask(num, raising == num)
        if raising == num + 100:
            callback = None
        world.daemon.enqueue(cmd, callback)
        before = dict(model)
        answers, calls = expect(world, item, model, before)
        want_calls += calls
        wants.append([] if callback is None else answers)
        metrics["command"] += 1
        for ans in answers:
            verdict = ans if isinstance(ans, bool) else ans[0]
            kind = "success" if verdict else "failure"
            metrics[kind] += 1
        if by_steps:
            try:
                serve(world)
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(
                    f"the service died of {cmd!r}: {type(exc).__name__}: {exc}"
                ) from exc
            ch.equal(world.snapshot(), model, f"state after {cmd!r}")
    try:
        serve(world)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(
            f"the service died: {type(exc).__name__}: {exc}"
        ) from exc
    ch.equal(world.snapshot(), model, "state afterwards")
    ch.equal(world.calls, want_calls, "handlers called")
    for num, want in enumerate(wants):
        got = world.answers[num]
        ch.equal(len(got), len(want), f"answers of {items[num][0]!r}")
        for have, ans in zip(got, want):
            ch.check(
                isinstance(have[0], bool) and isinstance(have[1], str),
                f"answer {have!r}",
            )
            if isinstance(ans, tuple):
                ch.equal(have, ans, f"answer of {items[num][0]!r}")
            else:
                ch.equal(have[0], ans, f"verdict of {items[num][0]!r}: {have}")
        cmd = items[num][0]
        if want == [True] and isinstance(cmd, dict) and cmd["command"] == "help":
            judge_help(
                ch, world, got[0][1], cmd.get("data", {}).get("command")
            )
    ch.equal(world.order, sorted(world.order), "order of the answers")
    env = world.env
    ch.equal(env.get_metric("cmd.command_count"), metrics["command"],
             "commands counted")
    ch.equal(env.get_metric("cmd.success_count"), metrics["success"],
             "successes counted")
    ch.equal(
        env.get_metric("cmd.failure_count")
        + env.get_metric("cmd.rejected_count"),
        metrics["failure"], "failures counted",
    )


def sequences(pool, depth, tail=True, udp_too=False):
    """Every sequence of commands, and a good one at the end."""

    def body(ch):
        world = World(udp_too)
        try:
            items = pool
            if udp_too:
                items = udp_commands(world.recv[0].getsockname()[1])
            picked = []
            for _ in range(ch.choose(depth) + 1):
                picked.append(ch.pick(items))
            raising = ch.pick([None, 0, 100])
            if tail:
                picked += [GOOD, (plain("help"), [True], [], {})]
            drive(ch, world, picked, raising)
            ch.state(world.snapshot())
            ch.outcome(len(picked))
        finally:
            world.close()

    return body


# ------------------------------------------------------------ schedules


def submitters(ops, plans, stops=False, start=True):
    """Several threads execute commands; each gets its own answer."""

    def body(ch):
        sched.watch(ops)
        world = World(quiet=True)
        results = {}

        def submit(num, plan):
            for step, what in enumerate(plan):
                tag = (num, step)
                begin = sched.v_time()
                res = world.daemon.execute(
                    None if what is None else plain(what, {"tag": tag})
                )
                results[tag] = (what, res, sched.v_time() - begin)

        def main():
            assert world.daemon.start()
            threads = [
                sched.spawn(f"s{n}", lambda n=n, p=p: submit(n, p))
                for n, p in enumerate(plans)
            ]
            if stops:
                sched.v_sleep(0.001)
                while not world.daemon.stop():
                    sched.v_sleep(0.001)
            sched.join_all(threads)
            if not stops:
                while not world.daemon.stop():
                    sched.v_sleep(0.001)

        res = sched.run(ch, main, timers=False)
        for name, err in sched.errors(res):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        called = [c[1] for c in world.calls]
        late = 0
        for tag, (what, answer, took) in results.items():
            verdict, message = answer
            ch.check(took < 3.0, f"{what} took {took}")
            if took >= 1.9:
                ch.check(stops and not verdict, f"{what}: no answer, {answer}")
                late += 1
                continue
            if what == "echo":
                ch.equal((verdict, message), (True, f"echo {tag}"), "answer")
            else:
                ch.equal(verdict, False, f"verdict of {what}")
            if what in ("echo", "boom", "fail"):
                ch.equal(called.count(tag), 1, f"calls of {what}")
        ch.equal(len(results), sum(len(p) for p in plans), "answers")
        ch.check(len(set(called)) == len(called), "a command ran twice")
        for num in range(len(plans)):
            mine = [t[1] for t in called if t[0] == num]
            ch.equal(mine, sorted(mine), f"order of submitter {num}")
        if not stops:
            ch.equal(late, 0, "unanswered")
        ch.outcome((tuple(called), late))

    return body


# ------------------------------------------------------------ websockets


class Socket:
    """A client which sends these messages."""

    def __init__(self, messages):
        self.messages = list(messages)
        self.sent = []
        self.closed = 0
        self.local_address = ("127.0.0.1", 1)
        self.remote_address = ("127.0.0.1", 2)

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.messages:
            raise StopAsyncIteration
        return self.messages.pop(0)

    async def recv(self):
        if not self.messages:
            raise websockets.exceptions.ConnectionClosedOK(None, None)
        return self.messages.pop(0)

    async def send(self, data):
        self.sent.append(data)

    async def close(self, *_, **__):
        self.closed += 1


MESSAGES = [
    (json.dumps(plain("echo", {"tag": 7})), True, "echo 7"),
    (json.dumps(plain("echo", {"tag": 7})).encode(), True, "echo 7"),
    (json.dumps(plain("boom", {"tag": 7})), False, None),
    (json.dumps(plain("nope")), False, None),
    (json.dumps(plain(["echo"])), False, None),
    ("", False, None),
    ("{", False, None),
    ("null", False, None),
    ("5", False, None),
    ("[]", False, None),
    ('"echo"', False, None),
    (b"", False, None),
    (b"\xff\xfe{", False, None),
    (b"\x80", False, None),
    ("[" * 200000, False, None),
    ('{"command":' * 100000, False, None),
    ("9" * 5000, False, None),
]


def websocket_messages(depth):
    """Every sequence of messages over one connection."""

    def body(ch):
        sched.watch(LOCKS)
        world = World()
        picked = [ch.pick(MESSAGES) for _ in range(depth)] + [MESSAGES[0]]
        wsd = commandable_websocket_daemon(
            "ws", world.daemon, Host("127.0.0.1", 1), world.env
        )
        got = []

        class Server:
            sockets: list = []

        async def fake(handler, *_, **__):
            got.append(handler)
            return Server()

        real = websockets.serve
        websockets.serve = fake
        try:
            wsd.function["run_init"]()
        finally:
            websockets.serve = real
            wsd.eloop.close()
        sock = Socket([p[0] for p in picked])

        def main():
            assert world.daemon.start()
            coro = got[0](sock, "/")
            try:
                while True:
                    coro.send(None)
            except StopIteration:
                pass
            while not world.daemon.stop():
                sched.v_sleep(0.001)

        res = sched.run(ch, main, timers=False, preempt=False)
        for name, err in sched.errors(res):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        ch.equal(len(sock.sent), len(picked), "answers")
        for data, (_, verdict, message) in zip(sock.sent, picked):
            answer = json.loads(data)
            ch.equal(answer["success"], verdict, "verdict")
            if message is not None:
                ch.equal(answer["message"], message, "answer")
        ch.outcome(len(picked))

    return body


E2 = ["echo", "echo"]


def scenarios(tier):
    quick = tier == "quick"
    every = FULL + CHANNEL + DAEMON
    out = [
        Scenario("every command", sequences(every, 1)),
        Scenario("every command then a good one, udp",
                 sequences(None, 1, True, True)),
        Scenario("sequences", sequences(SHORT, 2 if quick else 3)),
        Scenario("daemon sequences", sequences(DAEMON[-8:], 2 if quick else 3)),
        Scenario("udp sequences", udp_tail(2 if quick else 3)),
        Scenario("websocket messages", websocket_messages(1)),
        Scenario("two submitters", submitters(
            LOCKS, [["echo", "boom"], [None, "echo"]]), bound=1 if quick else 2),
        Scenario("two submitters, callbacks", submitters(
            FEW, [["echo"], ["boom"]]), bound=1 if quick else 2),
        Scenario("two submitters fine", submitters(FINE, [["echo"], ["echo"]]),
                 bound=1 if quick else 2),
        Scenario("stopped meanwhile", submitters(
            LOCKS, [["echo", "echo"]], True), bound=2 if quick else 3),
        Scenario("stopped meanwhile, two", submitters(
            LOCKS, [["echo"], ["boom"]], True), bound=1 if quick else 2),
    ]
    if not quick:
        out += [
            Scenario("pairs of every command", sequences(every, 2)),
            Scenario("websocket pairs", websocket_messages(2)),
            Scenario("three submitters", submitters(
                LOCKS, [["echo"], ["fail"], ["boom"]]), bound=2),
        ]
    return out


def udp_tail(depth):
    """Sequences of the telling udp commands."""

    def body(ch):
        world = World(True)
        try:
            items = udp_commands(world.recv[0].getsockname()[1])[-9:]
            picked = [ch.pick(items) for _ in range(depth)]
            drive(ch, world, picked, None)
            ch.outcome(len(picked))
        finally:
            world.close()

    return body
