"""C09: identifiers are unique, dense, stable and unaffected by lookups."""
import json

from vtelem.channel import Channel
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry
from vtelem.registry.enum_retry import EnumRegistry as PlainEnums
from vtelem.registry.service import ServiceRegistry
from vtelem.registry.type import TypeRegistry, get_default
from vtelem.telemetry.environment import TelemetryEnvironment

from mc.explore import Scenario

ASSUMPTIONS = [
    "bounds: histories up to the stated depth over three names per registry, "
    "empty and pre-filled registries",
    "absence may be reported by a value or by an exception",
]
ABSENT = (AssertionError, KeyError, LookupError)


def enum(name, shift=0):
    """A small enumeration."""
    return user_enum(name, {0 + shift: "a", 1 + shift: "b"})


class Kind:
    """A registry of one kind, and what its description must list."""

    top = "things"
    names = ["n0", 'we"ird é', "n2"]

    def __init__(self):
        self.items = []  # (name, object), in order of registration
        self.reg = self.make()

    def make(self):
        return Registry(self.top)

    def register(self, name, variant):
        """(done, id)."""
        item = {"v": variant}
        done, ident = self.reg.add(name, item)
        return done, ident, item

    def item_id(self, name):
        return self.reg.get_id(name)

    def item(self, ident):
        return self.reg.get_item(ident)

    def same(self, one, two):
        return one is two

    def count(self):
        return self.reg.count()

    def described(self, indented=False):
        data = json.loads(self.reg.describe(indented))
        return data

    def lookups(self):
        """Lookups of unknown names and identifiers."""
        return [
            lambda: self.item_id("unknown"),
            lambda: self.item(-1),
            lambda: self.item(self.count()),
            lambda: self.item(1000),
            lambda: self.item_id(""),
        ]

    def expect_item(self, item):
        """The description of one item, or None where left open."""
        return item


class Services(Kind):
    top = "services"

    def make(self):
        return ServiceRegistry()

    def register(self, name, variant):
        item = [["host", variant]]
        return (*self.reg.add(name, item), item)


class Types(Kind):
    top = "types"

    def make(self):
        reg = get_default()
        for ident in range(reg.count()):
            prim = reg.get_type(ident)
            self.items.append((prim.value.name, prim))
        return reg

    def register(self, name, variant):
        item = [Primitive.UINT8, Primitive.DOUBLE][variant % 2]
        return (*self.reg.add(name, item), item)

    def item(self, ident):
        return self.reg.get_type(ident)

    def expect_item(self, item):
        return None


class FewTypes(Types):
    def make(self):
        self.items = [("mine", Primitive.INT8)]
        return TypeRegistry([("mine", Primitive.INT8)])


class Channels(Kind):
    top = "channels"

    def make(self):
        first = Channel("first", Primitive.UINT8, 1.0)
        self.items = [("first", first)]
        return ChannelRegistry([first])

    def register(self, name, variant):
        item = Channel(
            name, [Primitive.UINT8, Primitive.DOUBLE][variant % 2], 0.5 + variant
        )
        return (*self.reg.add_channel(item), item)

    def expect_item(self, item):
        return {
            "name": item.name,
            "rate": item.rate,
            "commandable": item.commandable,
            "type": {
                "name": item.type.value.name,
                "signed": item.type.value.signed,
                "size": item.type.value.size,
            },
        }

    def lookups(self):
        out = super().lookups()
        out.append(lambda: self.reg.get_channel_type(77))
        return out


class Enums(Kind):
    top = "enums"
    names = ["n0", "n1", "n2"]

    def make(self):
        first = enum("first", 3)
        self.items = [("first", first)]
        return EnumRegistry([first])

    def register(self, name, variant):
        item = enum(name, variant)
        return (*self.reg.add_enum(item), item)

    def expect_item(self, item):
        return {
            "name": item.name,
            "default": "a",
            "mappings": {str(item.get_value(s)): s for s in ("a", "b")},
            "type": "user_enum",
        }

    def lookups(self):
        out = super().lookups()
        out.append(lambda: self.reg.get_enum(enum("unknown")))
        for bad in ("nope", "", "unknown"):
            out.append(lambda n=bad: self.items[0][1].get_value(n))
            out.append(lambda n=bad: self.items[0][1].get_primitive(n))
        out.append(lambda: self.items[0][1].get_str(99))

        def conflicting():
            """An export refused because of a type of the same name."""
            other = TypeRegistry([("first", Primitive.BOOLEAN)])
            if self.reg.export(other):
                raise LookupError("not refused")
            return None

        out.append(conflicting)
        return out


class Plain(Kind):
    """The serializable registry."""

    top = "enums"
    names = ["n0", "n1", "type"]

    def make(self):
        return PlainEnums()

    def register(self, name, variant):
        item = enum(name, variant)
        try:
            return True, self.reg.add(item), item
        except AssertionError:
            return False, -1, item

    def item_id(self, name):
        for ident, known in self.described()["mappings"].items():
            if known == name:
                return int(ident)
        return None

    def item(self, ident):
        return self.reg.get_enum(ident)

    def count(self):
        return len(self.described()["mappings"])

    def described(self, indented=False):
        data = json.loads(self.reg.json_str(2 if indented else None))
        data["mappings"] = {int(k): v for k, v in data["mappings"].items()}
        return data

    def lookups(self):
        return [
            lambda: self.item(-1),
            lambda: self.item(self.count()),
            lambda: self.reg.get_enum(1000),
        ]


class Groups(Kind):
    top = "channel_groups"

    def make(self):
        self.env = TelemetryEnvironment(1500, app_id_basis=0.5)
        return ChannelGroupRegistry(self.env)

    def register(self, name, variant):
        try:
            ident = self.reg.create_group(name)
        except AssertionError:
            return False, -1, None
        self.reg.add_channel(ident, "c", Primitive.UINT8, 1.0)
        return True, ident, self.reg.get_item(ident)

    def expect_item(self, item):
        return None

    def lookups(self):
        def group():
            with self.reg.group(99):
                return "unknown group opened"

        out = super().lookups()
        out.append(group)
        out.append(
            lambda: self.reg.add_channel(99, "x", Primitive.UINT8, 1.0) or None
        )
        out.append(lambda: self.reg.add_enum_channel(99, "x", "first", 1.0))
        return out


class EnvChannels(Channels):
    """Channels registered through an environment."""

    metrics = None

    def make(self):
        self.env = TelemetryEnvironment(
            1500, app_id_basis=0.5, metrics_rate=self.metrics
        )
        self.env.add_enum(enum("first"))
        reg = self.env.channel_registry
        for ident in range(reg.count()):
            chan = reg.get_item(ident)
            self.items.append((chan.name, chan))
        return reg

    def register(self, name, variant):
        try:
            if variant % 2:
                ident = self.env.add_enum_channel(name, "first", 1.0)
            else:
                ident = self.env.add_channel(name, Primitive.INT16, 0.25)
        except AssertionError:
            return False, -1, None
        return True, ident, self.reg.get_item(ident)

    def lookups(self):
        env = self.env
        out = super().lookups()
        out += [
            lambda: env.has_channel("unknown") or None,
            lambda: env.command_channel("unknown", 1) or None,
            lambda: env.command_enum_channel("unknown", "a") or None,
            lambda: env.is_enum_channel(500) or None,
            lambda: env.get_value(500),
            lambda: env.get_enum_value(500),
            lambda: env.set_now(500, 1),
            lambda: env.command_channel_id(500, 1),
            lambda: env.command_enum_channel_id(500, "a"),
            lambda: env.set_enum_now(500, "a"),
            lambda: env.has_metric("unknown") or None,
        ]
        return out


class EnvMetrics(EnvChannels):
    metrics = 0.5


class EnvEnums(Enums):
    """Enumerations registered through an environment."""

    def make(self):
        self.env = TelemetryEnvironment(
            1500,
            app_id_basis=0.5,
            initial_enums=[enum("first", 3)],
            metrics_rate=1.0,
        )
        reg = self.env.enum_registry
        for ident in range(reg.count()):
            item = reg.get_item(ident)
            self.items.append((item.name, item))
        return reg

    def register(self, name, variant):
        item = enum(name, variant)
        known = self.env.has_enum(item)
        ident = self.env.add_enum(item)
        if known:
            # the identifier already handed out, nothing changed
            want = [n for n, _ in self.items].index(name)
            if ident != want:
                return True, ident, item
            return False, -1, item
        return True, ident, item

    def expect_item(self, item):
        if item.name in ("frame_type", "message_type"):
            return None
        return super().expect_item(item)

    def lookups(self):
        return super().lookups() + [
            lambda: self.env.has_enum(enum("unknown")) or None
        ]

    def types(self):
        """Names of all types, by identifier."""
        reg = self.env.type_registry
        data = json.loads(reg.describe())
        return {v: k for k, v in data["mappings"].items()}


def verify(ch, kind):
    """The registry holds exactly the items registered."""
    items = kind.items
    ch.equal(kind.count(), len(items), "count")
    for ident, (name, item) in enumerate(items):
        ch.equal(kind.item_id(name), ident, f"id of {name}")
        ch.check(kind.same(kind.item(ident), item), f"item {ident} is another")
    for indented in (False, True):
        data = kind.described(indented)
        listed = data[kind.top]
        if isinstance(kind, Plain):
            ch.equal(
                data["mappings"], {i: n for i, (n, _) in enumerate(items)},
                "identifiers described",
            )
            ch.equal(
                {n: d["mappings"] for n, d in listed.items()},
                {n: {str(i.get_value(s)): s for s in "ab"} for n, i in items},
                "enumerations described",
            )
            continue
        ch.equal(
            data["mappings"], {n: i for i, (n, _) in enumerate(items)},
            "names described",
        )
        ch.equal(
            sorted(listed, key=int),
            [str(i) for i in range(len(items))],
            "identifiers described",
        )
        for ident, (name, item) in enumerate(items):
            want = kind.expect_item(item)
            if want is not None:
                ch.equal(listed[str(ident)], want, f"description of {name}")


def history(cls, depth):
    """Registrations and lookups against a list of items."""

    def body(ch):
        kind = cls()
        base = len(kind.items)
        lookups = kind.lookups()
        for step in range(depth):
            ops = ["end", *kind.names, "lookup"]
            oper = ch.pick(ops, "op")
            if oper == "end":
                break
            ch.step()
            if oper == "lookup":
                before = kind.described()
                for i, look in enumerate(lookups):
                    try:
                        got = look()
                    except ABSENT:
                        got = None
                    ch.check(
                        got in (None, (False, -1)),
                        lambda n=i, g=got: f"lookup {n} found {g!r}",
                    )
                ch.equal(kind.described(), before, "description after lookups")
                continue
            known = [n for n, _ in kind.items]
            before = kind.described()
            done, ident, item = kind.register(oper, step)
            if oper in known:
                ch.check(not done, f"{oper} registered again as {ident}")
                ch.equal(kind.described(), before, "description after refusal")
            else:
                ch.check(done, f"{oper} refused")
                ch.equal(ident, len(kind.items), "new identifier")
                kind.items.append((oper, item))
            ch.outcome((done, ident))
        verify(ch, kind)
        if isinstance(kind, EnvEnums):
            # each enumeration is a type as well, exactly once
            names = [n for n, _ in kind.items]
            types = kind.types()
            prims = [p.value.name for p in Primitive]
            ch.equal(sorted(types.values()), sorted(prims + names), "types")
            ch.equal(sorted(types), list(range(len(types))), "type ids")
            glob = kind.described()["global_mappings"]
            ch.equal(
                {types[int(t)]: e for t, e in glob.items()},
                {n: i for i, n in enumerate(names)},
                "types of enumerations",
            )
            ch.equal(kind.env.get_metric("enum_count"), len(names), "metric")
            ch.equal(kind.env.get_metric("type_count"), len(types), "metric")
        if isinstance(kind, EnvMetrics):
            ch.equal(
                kind.env.get_metric("channel_count"), len(kind.items), "metric"
            )
        ch.state(tuple(n for n, _ in kind.items[base:]))

    return body


def reload_plain(ch):
    """The serializable registry goes on where it was after a reload."""
    kind = Plain()
    for step in range(4):
        oper = ch.pick(["reload", *kind.names], "op")
        if oper == "reload":
            kind.reg = kind.reg.load_str(kind.reg.json_str())
            kind.items = [
                (n, kind.reg.get_enum(i)) for i, (n, _) in enumerate(kind.items)
            ]
            for name, item in kind.items:
                ch.equal(item.name, name, "name after reload")
        else:
            known = oper in [n for n, _ in kind.items]
            done, ident, item = kind.register(oper, step)
            ch.equal(done, not known, f"registering {oper}")
            if done:
                ch.equal(ident, len(kind.items), "identifier")
                kind.items.append((oper, item))
        verify(ch, kind)
        ch.outcome(len(kind.items))


def environment(ch):
    """All registries of one environment side by side."""
    env = TelemetryEnvironment(1500, app_id_basis=0.5, metrics_rate=1.0)
    groups = ChannelGroupRegistry(env)
    env.registries["channel_groups"] = groups
    names = []
    start = env.channel_registry.count()
    created = 0
    for step in range(4):
        oper = ch.pick(["chan", "enum", "group", "echan", "look"], "op")
        if oper == "chan":
            names.append(f"c{step}")
            ch.equal(
                env.add_channel(names[-1], Primitive.UINT8, 1.0),
                start + len(names) - 1,
                "channel id",
            )
        elif oper == "enum":
            env.add_enum(enum(f"e{step}"))
        elif oper == "group":
            gid = groups.create_group(f"g{step}")
            ch.equal(gid, created, "group id")
            created += 1
            groups.add_channel(gid, "x", Primitive.UINT8, 1.0)
            names.append(f"g{step}.x")
        elif oper == "echan":
            env.add_enum(enum("mode"))
            names.append(f"m{step}")
            ch.equal(
                env.add_enum_channel(names[-1], "mode", 1.0),
                start + len(names) - 1,
                "enum channel id",
            )
        else:
            for reg in env.registries.values():
                ch.equal(reg.get_id("unknown"), None, "unknown name")
                ch.equal(reg.get_item(-1), None, "unknown id")
                ch.equal(reg.get_item(10**6), None, "unknown id")
        all_data = {
            k: json.loads(r.describe()) for k, r in env.registries.items()
        }
        for key, reg in env.registries.items():
            data = all_data[key]
            ch.equal(
                sorted(data["mappings"].values()),
                list(range(reg.count())),
                f"{key} identifiers",
            )
            ch.equal(
                sorted(map(int, data[reg.type_name])),
                list(range(reg.count())),
                f"{key} items",
            )
        chans = all_data["channel"]["mappings"]
        for i, name in enumerate(names):
            ch.equal(chans.get(name), start + i, f"id of {name}")
        ch.equal(env.get_metric("channel_count"), len(chans), "channel count")
        ch.outcome((oper, len(names)))


KINDS = [
    Kind, Services, Types, FewTypes, Channels, Enums, Plain, Groups,
    EnvChannels, EnvMetrics, EnvEnums,
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for cls in KINDS:
        depth = 6 if deep else 5
        out.append(Scenario(cls.__name__.lower(), history(cls, depth)))
    out.append(Scenario("reload", reload_plain))
    out.append(Scenario("environment", environment))
    return out
