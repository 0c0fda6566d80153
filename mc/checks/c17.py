"""C17: only permitted channel commands take effect."""
from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from itertools import permutations
import math

from vtelem.classes.user_enum import user_enum
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.primitive import Primitive
from vtelem.factories.telemetry_environment import create_channel_commander
from vtelem.telemetry.environment import TelemetryEnvironment

from mc.checks.c08 import acceptable, equal
from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "bounds: one environment with commandable, fixed, enumeration and metric "
    "channels, the listed names, identifiers, operations and values",
    "a boolean given for an integer, and an identifier that merely equals the "
    "channel's (1.0, true), may be taken or refused",
    "the numeric value of an enumeration's name may be taken or refused where "
    "the interface takes numbers",
]
ENUM = {0: "off", 1: "on", 7: "auto"}
NAMES = {v: k for k, v in ENUM.items()}
P = Primitive
# name -> (type, commandable, enumeration?, initial)
CHANNELS = {
    "byte": ("uint8", True, False, 3),
    "word": ("int16", True, False, -5),
    "big": ("uint64", True, False, 2**63),
    "flag": ("boolean", True, False, False),
    "real": ("float", True, False, 0.5),
    "fine": ("double", True, False, 0.0),
    "fixed": ("int16", False, False, 4),
    "mode": ("uint8", True, True, 1),
    "lock": ("uint8", False, True, 7),
}
PRIM = {p.value.name: p for p in Primitive}
ABSENT = object()
VALUES = [
    ABSENT, 0, 1, -1, 2, 7, 127, 128, 200, 255, 256, 2**15 - 1, 2**15, -(2**15),
    -(2**15) - 1, 2**64 - 1, 2**64, 10**400, 0.0, 1.5, -1.5, 1e39,
    float("inf"), float("nan"), True, False, None, "on", "ON", "off", "auto",
    "nope", "", "1", "mode", [], [1], {}, {"value": 1}, b"on",
]
OPS = [ABSENT, "set", "get", "increment", "decrement", "SET", "reset", "", None,
       1, [], {}, ["set"]]
FEW_VALUES = [ABSENT, 1, 200, 1.5, "on", None]
FINE = {
    "vtelem.classes.type_primitive": {
        "LOAD_ATTR", "STORE_ATTR", "CALL", "BINARY_OP",
    },
    "vtelem.channel": {"LOAD_ATTR", "CALL"},
    "vtelem.factories.telemetry_environment": {"CALL", "BINARY_SUBSCR"},
}


class World:
    """An environment, its commander and the model of it."""

    def __init__(self):
        self.env = env = TelemetryEnvironment(
            1500, init_time=1.0, metrics_rate=0.5, app_id_basis=0.5
        )
        env.add_enum(user_enum("mode", ENUM))
        self.ids = {}
        for name, (prim, cmdable, is_enum, init) in CHANNELS.items():
            if is_enum:
                cid = env.add_enum_channel(
                    name, "mode", 0.5, True, (ENUM[init], 1.0), cmdable
                )
            else:
                cid = env.add_channel(
                    name, PRIM[prim], 0.5, True, (init, 1.0), cmdable
                )
            self.ids[name] = cid
        env.add_metric("mine", P.UINT8, True, (1, 1.0))
        env.add_enum_metric("kind", "mode", True, ("on", 1.0))
        self.metrics = list(env.metrics)
        for name in self.metrics:
            self.ids[name] = env.metrics[name]
        self.names = {v: k for k, v in self.ids.items()}
        self.model = {n: self.value(n) for n in self.ids}
        for name, (_, _, _, init) in CHANNELS.items():
            assert equal(self.model[name], init), name
        env.event_queue.consume()
        self.daemon = CommandQueueDaemon("cmd")
        create_channel_commander(env, self.daemon)
        self.now = 1.0

    def value(self, name):
        return self.env.get_value(self.ids[name])

    def tick(self):
        self.now += 0.25
        self.env.set_time(self.now)

    def send(self, cmd):
        """One command through the daemon's own loop."""
        got = []
        self.daemon.enqueue(
            {"command": "channel", "data": cmd},
            lambda res, msg: got.append((res, msg)),
        )
        self.daemon.queue.put(None)
        self.daemon.run()
        if len(got) != 1:
            raise Violation(f"{len(got)} answers of {cmd}")
        return got[0]


def judge(ch, world, verdict, target, change, want, what):
    """Compare with what was allowed: 'want' is True, False or None (open)."""
    model = world.model
    events = world.env.event_queue.consume()
    if want is not None:
        ch.equal(verdict, want, f"verdict of {what}")
    if verdict and target is not None and change is not None:
        if isinstance(change, tuple):
            change = [c for c in change if equal(c, world.value(target))]
            ch.check(change, f"{what}: holds {world.value(target)!r}")
            change = change[0]
        old = model[target]
        model[target] = change
        # whether NaN counts as different from NaN is left open
        if not equal(old, change) and (old != change):
            ch.check(len(events) == 1, f"{what}: events {events}")
            ename, prev, cur = events[0]
            ch.equal(ename, target, "event's channel")
            ch.check(
                equal(prev[0], old)
                and (equal(cur[0], change) or cur[0] is bool(change)),
                f"{what}: event {events[0]}",
            )
            ch.equal(cur[1], world.now, "event's time")
        elif not (isinstance(old, float) and math.isnan(old)):
            ch.equal(events, [], f"events after {what}")
    else:
        ch.equal(events, [], f"events after {what}")
    for name in world.ids:
        ch.check(
            equal(world.value(name), model[name]),
            f"{what}: {name} is {world.value(name)!r}, not {model[name]!r}",
        )


def allowed_set(name, value):
    """(verdict, new value) of setting a channel to a value by number/name."""
    if name not in CHANNELS:
        return False, None  # a metric
    prim, cmdable, is_enum, _ = CHANNELS[name]
    if not cmdable:
        return False, None
    if is_enum:
        if isinstance(value, str) and value.lower() in NAMES:
            return True, NAMES[value.lower()]
        return False, None
    okay = acceptable(prim, value)
    if okay is None:
        return None, int(value)
    return okay, value


def allowed_add(name, current, value):
    """(verdict, new value) of adding to a channel."""
    if name not in CHANNELS:
        return False, None
    prim, cmdable, is_enum, _ = CHANNELS[name]
    if not cmdable or is_enum:
        return False, None
    if not isinstance(value, (int, float)) or prim == "boolean":
        return False, None
    try:
        total = current + value
    except OverflowError:
        return False, None
    okay = acceptable(prim, total)
    if okay and isinstance(value, bool):
        okay = None
    return okay, total


def resolve(world, name, cid):
    """The channel a command addresses: a name, None (refused) or 'open'."""
    loose = isinstance(cid, (bool, float)) and cid in world.names
    hashed = cid is not ABSENT and isinstance(cid, (int, float))
    by_id = world.names.get(cid) if hashed else None
    if name is ABSENT:
        if cid is ABSENT:
            return None, False
        return by_id, loose
    if not isinstance(name, str) or name not in world.ids:
        return None, False
    if cid is not ABSENT and by_id != name:
        return None, False
    return name, loose


def one(ch, world, name, cid, oper, value):
    """One command and its judgement."""
    cmd = {}
    for key, val in (
        ("channel_name", name), ("channel_id", cid), ("operation", oper),
        ("value", value),
    ):
        if val is not ABSENT:
            cmd[key] = val
    world.tick()
    target, loose = resolve(world, name, cid)
    verdict, msg = world.send(cmd)
    if not isinstance(verdict, bool):
        raise Violation(f"{cmd}: verdict {verdict!r}")
    want, change = False, None
    if target is not None and isinstance(oper, str):
        if oper == "set" and value is not ABSENT:
            want, change = allowed_set(target, value)
        elif oper == "get":
            want = True
            if verdict:
                now = world.model[target]
                is_enum = target == "kind" or (
                    target in CHANNELS and CHANNELS[target][2]
                )
                ch.equal(msg, ENUM[now] if is_enum else str(now), "value got")
        elif oper in ("increment", "decrement"):
            num = 1 if value is ABSENT else value
            if oper == "decrement" and isinstance(num, (int, float)):
                num = -num
            want, change = allowed_add(target, world.model[target], num)
            if want is None and isinstance(value, bool) is False:
                want = None
    if loose and want:
        want = None
    judge(ch, world, verdict, target, change, want, cmd)
    return verdict


NAMES_ALPHA = [ABSENT] + list(CHANNELS) + [
    "mine", "kind", "channel_count", "nope", "", "BYTE", None, 0, [], {},
]


def id_alpha(world, name):
    """Identifiers to combine with a name."""
    out = [ABSENT] + sorted(world.ids.values()) + [
        -1, 999, None, "0", "byte", [], {}, 1.5, float("nan")
    ]
    if isinstance(name, str) and name in world.ids:
        out.append(float(world.ids[name]))
        out.append(str(world.ids[name]))
    out += [0.0, True, False]
    return out


def product(ch):
    """Every combination of name, identifier, operation and value."""
    world = World()
    name = ch.pick(NAMES_ALPHA, "name")
    cid = ch.pick(id_alpha(world, name), "id")
    target, _ = resolve(world, name, cid)
    values = VALUES if target is not None else FEW_VALUES
    for oper in OPS:
        for value in values if oper in ("set", "increment", "decrement") else (
            FEW_VALUES
        ):
            one(ch, world, name, cid, oper, value)
            ch.step()
    ch.outcome(target)


def from_start(ch):
    """Every value from every starting value of every channel."""
    world = World()
    name = ch.pick(list(CHANNELS), "name")
    oper = ch.pick(["set", "increment", "decrement"])
    start = ch.pick(VALUES[1:], "start")
    for value in VALUES:
        one(ch, world, name, ABSENT, "set", start)
        one(ch, world, name, ABSENT, oper, value)
        ch.step()
    ch.outcome((name, oper))


SEQ = [
    ("byte", ABSENT, "set", 9), ("byte", ABSENT, "set", 300),
    ("byte", ABSENT, "increment", 250), ("byte", ABSENT, "decrement", ABSENT),
    ("mode", ABSENT, "set", "auto"), ("mode", ABSENT, "set", "nope"),
    ("mode", ABSENT, "set", 1), ("mode", ABSENT, "increment", ABSENT),
    ("mode", ABSENT, "get", ABSENT), ("lock", ABSENT, "set", "on"),
    ("lock", ABSENT, "get", ABSENT), ("fixed", ABSENT, "set", 1),
    ("mine", ABSENT, "increment", ABSENT), ("kind", ABSENT, "set", "off"),
    ("real", ABSENT, "set", 1e39), ("real", ABSENT, "decrement", 0.25),
    ("flag", ABSENT, "set", True), ("flag", ABSENT, "increment", 1),
    ("nope", ABSENT, "set", 1), ("byte", 999, "set", 1),
    (ABSENT, 999, "set", 1), (ABSENT, None, "set", 1),
]


def sequences(depth):
    """Sequences of commands."""

    def body(ch):
        world = World()
        for _ in range(depth):
            one(ch, world, *ch.pick(SEQ))
        ch.state(tuple(world.model.values()))
        ch.outcome(depth)

    return body


def direct(ch):
    """The environment's own commands."""
    world = World()
    env = world.env
    name = ch.pick(list(CHANNELS) + ["mine", "kind", "channel_count", "nope", ""])
    via = ch.pick(["name", "id", "enum name", "enum id"])
    known = name in world.ids
    cid = world.ids.get(name, 999)
    func = {
        "name": lambda v: env.command_channel(name, v),
        "id": lambda v: env.command_channel_id(cid, v),
        "enum name": lambda v: env.command_enum_channel(name, v),
        "enum id": lambda v: env.command_enum_channel_id(cid, v),
    }[via]
    for value in VALUES[1:]:
        world.tick()
        try:
            verdict = func(value)
        except Exception:  # pylint: disable=broad-except
            verdict = False
        if not isinstance(verdict, bool):
            raise Violation(f"verdict {verdict!r}")
        want, change, target = False, None, None
        if known:
            target = name
            want, change = allowed_set(name, value)
            is_enum = name in CHANNELS and CHANNELS[name][2]
            if is_enum and via in ("name", "id") and CHANNELS[name][1]:
                # numbers of names, or names
                if want:
                    want = None
                elif isinstance(value, (int, float)) and value in ENUM:
                    want, change = None, int(value)
            elif not is_enum and via.startswith("enum"):
                want, change = False, None
        judge(ch, world, verdict, target, change, want, (via, name, value))
        ch.step()
    ch.outcome((name, via))


# ------------------------------------------------------------ schedules


def races(ops, plans):
    """Commands from several threads: as if one after the other."""

    def run_one(env, what, arg, send):
        cid = env.channel_registry.get_id("byte")
        if what == "inc":
            return send({"operation": "increment", "channel_name": "byte",
                         "value": arg})[0]
        if what == "set":
            return send({"operation": "set", "channel_name": "byte",
                         "value": arg})[0]
        if what == "mode":
            return send({"operation": "set", "channel_name": "mode",
                         "value": arg})[0]
        if what == "direct":
            return env.command_channel_id(cid, arg)
        if what == "direct mode":
            return env.command_enum_channel("mode", arg)
        return env.set_now(cid, arg)

    def body(ch):
        sched.watch(ops)
        world = World()
        env = world.env
        daemons = []
        for num in range(len(plans)):
            daemon = CommandQueueDaemon(f"cmd{num}")
            create_channel_commander(env, daemon)
            daemons.append(daemon)
        log = []

        def work(num, plan):
            def send(cmd):
                got = []
                daemons[num].handle((
                    {"command": "channel", "data": cmd},
                    lambda res, msg: got.append((res, msg)),
                ))
                return got[0]

            for what, arg in plan:
                res = run_one(env, what, arg, send)
                log.append((num, what, arg, res))

        def main():
            sched.join_all([
                sched.spawn(f"w{n}", lambda n=n, p=p: work(n, p))
                for n, p in enumerate(plans)
            ])

        res = sched.run(ch, main, timers=False)
        for name, err in sched.errors(res):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        verdicts = {}
        for num, what, arg, okay in log:
            verdicts.setdefault(num, []).append(okay)
        order = [n for n, p in enumerate(plans) for _ in p]
        events = [
            (n, p[0], c[0]) for n, p, c in env.event_queue.consume()
        ]
        got = (
            world.value("byte"), world.value("mode"),
            tuple(sorted((n, tuple(v)) for n, v in verdicts.items())),
            tuple(events),
        )
        ways = set()
        for perm in set(permutations(order)):
            pos = [0] * len(plans)
            byte, mode = 3, 1
            out, evs = {}, []
            for num in perm:
                what, arg = plans[num][pos[num]]
                pos[num] += 1
                okay = True
                if what in ("mode", "direct mode"):
                    new = NAMES[arg]
                    if new != mode:
                        evs.append(("mode", mode, new))
                    mode = new
                else:
                    new = byte + arg if what == "inc" else arg
                    okay = 0 <= new <= 255
                    if okay:
                        if new != byte:
                            evs.append(("byte", byte, new))
                        byte = new
                out.setdefault(num, []).append(okay)
            ways.add((
                byte, mode,
                tuple(sorted((n, tuple(v)) for n, v in out.items())),
                tuple(evs),
            ))
        ch.check(got in ways, f"{log} gave {got}")
        ch.outcome(got)

    return body


def scenarios(tier):
    quick = tier == "quick"
    bound = 2 if quick else 3
    out = [
        Scenario("product", product),
        Scenario("from every value", from_start),
        Scenario("direct", direct),
        Scenario("sequences", sequences(2 if quick else 3)),
        Scenario("increments race", races(
            FINE, [[("inc", 1), ("inc", 2)], [("direct", 10)]]), bound=bound),
        Scenario("increment and write race", races(
            FINE, [[("inc", 250)], [("now", 10)]]), bound=bound),
        Scenario("two commanders", races(
            FINE, [[("inc", 5)], [("inc", 250)]]), bound=bound),
        Scenario("sets race", races(
            FINE, [[("set", 5)], [("direct", 6)]]), bound=bound),
        Scenario("enum sets race", races(
            FINE, [[("mode", "off")], [("direct mode", "auto")]]),
            bound=bound),
    ]
    return out
