"""C23: serializable objects and enumerations survive a JSON round trip."""
import copy
from enum import IntEnum
import io
import json
import os
import pathlib
import re
import shutil
import tempfile

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from cerberus import Validator

from vtelem.classes.serdes import Serializable, SerializableParams
from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.primitive import Primitive, get_name, to_dict
from vtelem.registry.enum_retry import EnumRegistry
from vtelem.schema.manager import SchemaManager
from vtelem.serializables.primitive import (
    SerializablePrimitive, from_primitive, get_all,
)

from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "an object is rejected if constructing or loading it raises or if it is "
    "not valid afterwards; any exception will do",
    "data is JSON-shaped (string keys, except where a class coerces them); "
    "names are compared regardless of case on lookup; whether values that do "
    "not fit a byte are refused is left open",
    "a missing type, and a default of null, are filled in (schemas or not); "
    "without a schema only "
    "enumerations' own consistency is required of what loads",
    "order of names is not compared; validity is that of construction time",
]
OPS = {
    "vtelem.registry.enum_retry": sched.COARSE,
    "vtelem.classes.serdes": {"CALL"},
}
# whatever is raised for something refused
REFUSED = (
    AssertionError, KeyError, ValueError, TypeError, AttributeError,
    IndexError, RuntimeError,
)


def manager(**kwargs):
    result = SchemaManager()
    result.load_package(**kwargs)
    return result


MANAGERS = {
    "none": None,
    "strict": manager(require_all=True, allow_unknown=False),
    "lax": manager(require_all=True, allow_unknown=True),
}


def attempt(func, *args, **kwargs):
    """A result, or the exception."""
    try:
        return func(*args, **kwargs)
    except REFUSED as exc:
        return exc


def rejected(obj):
    return isinstance(obj, Exception) or not obj.valid


def jsonish(data):
    """Data as its JSON form reads."""
    return json.loads(json.dumps(data))


def same(ch, left, right, what):
    ch.check(left == right and right == left, f"{what}: not equal")
    ch.check(not left != right, f"{what}: equal and different")
    ch.check(type(left) is type(right), f"{what}: of another type")
    if isinstance(left.name, str):
        ch.equal(hash(left), hash(right), f"{what}: hash")
    ch.equal(left.name, right.name, f"{what}: name")


def survives(ch, obj, what, want=None):
    """An object's JSON form loads as an equal object, repeatedly."""
    text = obj.json_str()
    if want is not None:
        ch.equal(json.loads(text), want, f"{what}: JSON")
    now = obj
    for times in range(3):
        with io.StringIO() as stream:
            now.json(stream, indent=times or None)
            form = stream.getvalue()
        ch.equal(form, now.json_str(times or None), f"{what}: stream, string")
        new = (
            now.load(io.StringIO(form)) if times == 1 else now.load_str(form)
        )
        same(ch, obj, new, f"{what} (load {times})")
        ch.equal(new.valid, obj.valid, f"{what}: validity when loaded")
        ch.equal(new.json_str(), text, f"{what}: JSON of what was loaded")
        check_lists(ch, obj, new, what)
        ch.check(new is not now and new.data is not now.data, "loads itself")
        now = new
    ch.equal(obj.json_str(), text, f"{what}: JSON after loading")
    return now


def check_lists(ch, obj, new, what):
    if isinstance(obj, UserEnum):
        ch.equal(new.default, obj.default, f"{what}: default")
        ch.equal(table(new), table(obj), f"{what}: names and values")


def table(enum):
    return {enum.get_value(name): name for name in enum}


def consistent(ch, enum, values, default, what):
    """Names and values of an enumeration are inverse to each other."""
    low = {val: name.lower() for val, name in values.items()}
    names = list(enum)
    ch.equal(len(names), len(set(names)), f"{what}: names listed once")
    ch.equal(set(names), set(low.values()), f"{what}: names")
    for val, name in low.items():
        ch.equal(enum.get_str(val).lower(), name, f"{what}: name of {val}")
        for form in (name, name.upper(), name.title()):
            ch.equal(enum.get_value(form), val, f"{what}: value of {form}")
        ch.equal(enum.get_value(enum.get_str(val)), val, f"{what}: inverse")
        ch.check(enum.get_str(val) == values[val] or
                 enum.get_str(val) == name, f"{what}: another name")
        if 0 <= val < 256:
            ch.equal(
                enum.get_primitive(name.upper()).get(), val,
                f"{what}: primitive of {name}",
            )
    ch.equal(enum.default.lower(), default, f"{what}: default")
    ch.check(
        enum.get_value(enum.default) in low, f"{what}: default isn't a member"
    )


def snapshot(enum):
    return (
        copy.deepcopy({k: dict(v) if isinstance(v, dict) else v
                       for k, v in enum.data.items()}),
        sorted(enum), enum.default, enum.json_str(), enum.valid, enum.name,
    )


ALPHA = re.compile("[a-z]+$")
NAME = re.compile("[a-z_]+$")


def schema_enum(doc, strict):
    """The package's schema for enumerations, JSON form, all required."""
    if not isinstance(doc, dict):
        return False
    if not {"default", "mappings", "name"} <= set(doc):
        return False
    if strict and set(doc) - {"default", "mappings", "name", "type"}:
        return False
    return (
        doc.get("type", "user_enum") == "user_enum"
        and isinstance(doc["default"], (str, type(None)))
        and isinstance(doc["name"], str)
        and bool(NAME.match(doc["name"]))
        and isinstance(doc["mappings"], dict)
        and all(
            integral(key) and isinstance(val, str) and ALPHA.match(val)
            for key, val in doc["mappings"].items()
        )
    )


def integral(key):
    try:
        int(key)
    except ValueError:
        return False
    return True


def sound_enum(doc):
    """An enumeration's own consistency: its values, or None."""
    try:
        pairs = [(int(k), v) for k, v in doc["mappings"].items()]
        lows = [v.lower() for _, v in pairs]
        default = doc["default"]
        if default is None:
            default = lows[0]
        if (
            len(set(lows)) != len(lows)
            or len({k for k, _ in pairs}) != len(pairs)
            or default.lower() not in lows
        ):
            return None
    except REFUSED:
        return None
    return dict(pairs), default.lower()


def schema_registry(doc, strict):
    if not isinstance(doc, dict):
        return False
    enums, maps = doc.get("enums", {}), doc.get("mappings", {})
    if strict and set(doc) - {"enums", "mappings", "type"}:
        return False
    return (
        doc.get("type", "enum_registry") == "enum_registry"
        and isinstance(enums, dict)
        and isinstance(maps, dict)
        and all(isinstance(val, dict) for val in enums.values())
        and all(integral(k) and isinstance(v, str) for k, v in maps.items())
        and all(schema_enum(val, strict) for val in enums.values())
    )


def sound_registry(doc):
    """A registry's own consistency: (mappings, enums) or None."""
    try:
        maps = {int(k): v for k, v in doc.get("mappings", {}).items()}
        enums = doc.get("enums", {})
        if len(maps) != len(doc.get("mappings", {})):
            return None
        if sorted(maps.values()) != sorted(enums):
            return None
        tables = {name: sound_enum(val) for name, val in enums.items()}
        if None in tables.values():
            return None
        if any(val.get("name") != key for key, val in enums.items()):
            return None
    except REFUSED:
        return None
    return maps, tables


PRIMS = {get_name(prim): prim for prim in Primitive}
PRIM_FIELDS = {
    "integer": bool, "max": int, "min": int, "name": str, "signed": bool,
    "size": int, "type": str,
}


def schema_prim(doc, strict):
    if not isinstance(doc, dict):
        return False
    if strict and set(doc) - set(PRIM_FIELDS):
        return False
    if not {"integer", "name", "signed", "size"} <= set(doc):
        return False
    return doc.get("type", "serializable_primitive") == (
        "serializable_primitive"
    ) and all(
        isinstance(val, PRIM_FIELDS[key])
        for key, val in doc.items() if key in PRIM_FIELDS
    )


def sound_prim(doc):
    try:
        return PRIMS.get(doc["name"])
    except REFUSED:
        return None


ENUM_NAMES = ["plain", "CamelCase", "snake_case"]
SNAKES = {
    "plain": "plain", "CamelCase": "camel_case", "snake_case": "snake_case",
}


def construct(size, full):
    """Every small enumeration."""
    labels = ["a", "b", "A", "B", "c_d", "off", "x1"]
    defaults = [None, "b", "a", "zz", "A", "off", "unknown"]
    if not full:
        labels = ["a", "b", "B", "c_d"][:5 - size // 3 * 2]
        defaults = [None, "b", "zz", "A"]

    def body(ch):
        name = ch.pick(ENUM_NAMES if size < 3 else ENUM_NAMES[:1], "name")
        mkind = ch.pick(
            ["none", "strict", "lax"] if size < 3 else ["strict"], "schemas"
        )
        values = {}
        every = (1, 0, 255) if full or size < 3 else (10, 2, 7)
        for _ in range(ch.choose(size + 1)):
            val = ch.pick([v for v in every if v not in values])
            values[val] = ch.pick(labels, f"name of {val}")
        mgr = MANAGERS[mkind]
        how = ch.pick(["user_enum", "from_enum", "data", "text"], "made from")
        default = None
        if how != "from_enum":
            default = ch.pick(defaults, "default")
        doc = {"name": SNAKES[name], "mappings": {
            str(k): v for k, v in values.items()
        }, "default": default, "type": "user_enum"}
        given = dict(values)
        if how == "user_enum":
            enum = attempt(user_enum, name, values, default, mgr)
        elif how == "from_enum":
            lows = [v.lower() for v in values.values()]
            if len(set(values.values())) != len(lows) or not values:
                ch.outcome("no class")
                return
            made = IntEnum(name, {v: k for k, v in values.items()})
            enum = attempt(from_enum, made)
        else:
            # as it would be loaded; a default has to be given there
            source = user_enum("source", {0: "s"}, None, mgr)
            if how == "text":
                enum = attempt(source.load_str, json.dumps(doc))
            else:
                enum = attempt(UserEnum, copy.deepcopy(doc), manager=mgr)
        ch.step()
        ch.equal(values, given, "the caller's values")
        sound = sound_enum(doc) if values else None
        what = f"{name} {values} default {default} by {how}"
        if sound is None:
            ch.check(
                isinstance(enum, Exception),
                f"{what}: an inconsistent enumeration was accepted",
            )
            ch.outcome("refused")
            return
        ch.check(
            not isinstance(enum, Exception), lambda: f"{what}: raised {enum!r}"
        )
        lower = how in ("user_enum", "from_enum")
        if lower:
            doc["mappings"] = {k: v.lower() for k, v in doc["mappings"].items()}
            doc["default"] = sound[1]
        elif default is None:
            doc["default"] = enum.default
        consistent(ch, enum, values, sound[1], what)
        if lower:
            ch.equal(
                {v: enum.get_str(v) for v in values},
                {k: v.lower() for k, v in values.items()}, "names by value",
            )
            ch.equal(enum.default, sound[1], "default")
        ch.equal(enum.name, doc["name"], "name")
        valid = how == "from_enum" or mgr is None or schema_enum(
            doc, mkind == "strict"
        )
        ch.equal(enum.valid, valid, f"{what}: valid")
        survives(ch, enum, what, doc)
        ch.state(doc)
        ch.outcome(valid)

    return body


def extremes(ch):
    """Enumerations of many, large and negative values."""
    kind = ch.pick(["full", "sparse", "reverse", "negative", "large", "many"])
    values = {
        "full": {i: f"v{i}" for i in range(256)},
        "sparse": {i: f"n{i * 7}" for i in range(0, 256, 5)},
        "reverse": {i: f"v{i}" for i in reversed(range(256))},
        "negative": {-1: "minus", 0: "zero", 1: "plus"},
        "large": {0: "zero", 1 << 40: "large"},
        "many": {i: f"v{i}" for i in range(257)},
    }[kind]
    default = ch.pick([None, "last", "LAST"])
    if default:
        default = list(values.values())[-1]
        default = default.upper() if ch.flag("upper") else default
    enum = attempt(user_enum, "e", values, default)
    ch.step()
    if kind == "many":
        ch.check(isinstance(enum, Exception), "257 values were accepted")
        ch.outcome("refused")
        return
    if isinstance(enum, Exception) and kind in ("negative", "large"):
        ch.outcome("refused")
        return
    if isinstance(enum, Exception):
        raise Violation(f"{kind}: raised {enum!r}")
    want = default.lower() if default else list(values.values())[0]
    consistent(ch, enum, values, want, kind)
    survives(ch, enum, kind)
    for bad in (-2, 256, 1 << 41, "v0", None):
        got = attempt(enum.get_str, bad)
        ch.check(isinstance(got, Exception), f"{bad} is {got!r}")
    consistent(ch, enum, values, want, kind)
    ch.outcome(kind)


LOOKS = [
    ("get_str", 0), ("get_str", 1), ("get_str", 7), ("get_str", -1),
    ("get_str", 255), ("get_str", 256), ("get_str", None), ("get_str", "0"),
    ("get_str", "a"), ("get_value", "a"), ("get_value", "A"),
    ("get_value", "on"), ("get_value", "nope"), ("get_value", ""),
    ("get_value", "unknown"), ("get_value", "0"), ("get_value", " a"),
    ("get_value", "none"), ("get_value", None), ("get_value", 0),
    ("get_primitive", "on"), ("get_primitive", "nope"),
    ("get_primitive", "unknown"), ("get_primitive", ""),
]
GOOD = {
    ("get_str", 0): "on", ("get_str", 1): "a", ("get_str", 255): "last",
    ("get_value", "a"): 1, ("get_value", "A"): 1, ("get_value", "on"): 0,
}


def make_enum(kind, mgr):
    values = {1: "a", 0: "on", 255: "last"}
    enum = user_enum("e", values, "on", mgr)
    if kind == "loaded":
        return enum.load_str(enum.json_str())
    if kind == "registered":
        reg = EnumRegistry(manager=mgr)
        ident = reg.add(enum)
        return reg.load_str(reg.json_str()).get_enum(ident)
    return enum


def lookups(depth):
    """Lookups of known and unknown names and values change nothing."""

    def body(ch):
        mgr = MANAGERS[ch.pick(["none", "strict"])]
        enum = make_enum(ch.pick(["made", "loaded", "registered"]), mgr)
        before = snapshot(enum)
        for _ in range(depth):
            look = ch.pick(LOOKS, "look up")
            ch.step()
            got = attempt(getattr(enum, look[0]), look[1])
            if look == ("get_primitive", "on"):
                ch.check(not isinstance(got, Exception), f"raised {got!r}")
                got = got.get()
                ch.equal(got, 0, "primitive")
            elif look in GOOD:
                ch.equal(got, GOOD[look], f"{look}")
            else:
                ch.check(
                    isinstance(got, Exception), f"{look} found {got!r}"
                )
            ch.equal(snapshot(enum), before, f"enumeration after {look}")
        consistent(ch, enum, {1: "a", 0: "on", 255: "last"}, "on", "after")
        ch.check(enum == make_enum("made", mgr), "not equal to a fresh one")
        ch.outcome(before[3])

    return body


ENUM_DOC = {
    "type": "user_enum", "name": "some_enum", "default": "b",
    "mappings": {"0": "a", "1": "b", "10": "c"},
}
REGISTRY_DOC = {
    "type": "enum_registry",
    "enums": {
        "x": {"type": "user_enum", "name": "x", "default": "q",
              "mappings": {"0": "p", "1": "q"}},
        "y": {"type": "user_enum", "name": "y", "default": "r",
              "mappings": {"5": "r"}},
    },
    "mappings": {"0": "x", "1": "y"},
}
SIMPLE = {"type": "simple", "x": 1, "n": {"y": "t"}}
SIMPLE_SCHEMA = {
    "type": {"type": "string", "allowed": ["simple"]},
    "x": {"type": "integer", "min": 0, "max": 9},
    "n": {"type": "dict", "schema": {"y": {"type": "string"}}},
}


class Simple(Serializable):
    """An object with a schema of its own."""


def schema_simple(doc, strict):
    if not isinstance(doc, dict):
        return False
    if not {"x", "n"} <= set(doc):
        return False
    if strict and set(doc) - {"type", "x", "n"}:
        return False
    inner = doc["n"]
    return (
        doc.get("type", "simple") == "simple" and isinstance(doc["x"], int)
        and 0 <= doc["x"] <= 9 and isinstance(inner, dict)
        and isinstance(inner.get("y"), str)
        and not (strict and set(inner) - {"y"})
    )


for _key, _mgr in MANAGERS.items():
    if _mgr is not None:
        _mgr.schemas["Simple"] = Validator(
            SIMPLE_SCHEMA, require_all=True, allow_unknown=_key != "strict"
        )

KINDS = {
    "enum": (UserEnum, ENUM_DOC, schema_enum, sound_enum),
    "registry": (EnumRegistry, REGISTRY_DOC, schema_registry, sound_registry),
    "int": (
        SerializablePrimitive,
        {**to_dict(Primitive.INT16), "type": "serializable_primitive"},
        schema_prim, sound_prim,
    ),
    "float": (
        SerializablePrimitive,
        {**to_dict(Primitive.DOUBLE), "type": "serializable_primitive"},
        schema_prim, sound_prim,
    ),
    "simple": (Simple, SIMPLE, schema_simple, lambda doc: doc),
}
# no lists: an unhashable value is as good as any other wrong one
REPLACE = [
    None, True, 0, 10, -3, 1.5, "", "a", "x", "B", "b", "UPPER", "with space", "x1",
    "user_enum", "enum_registry", [], ["a"], {}, {"0": "a"}, {"0": "x"},
    {"a": "0"}, {"0": 1}, {"0": "b", "00": "c"}, {"0": "b", "1": "B"},
    {"-5": "b"}, {"0": {"y": 1}},
]
KEYS = ["extra", "2", "9", "01", "x", "bad key", "name"]


def paths(doc, prefix=()):
    """Every path into a document."""
    for key, val in doc.items():
        yield prefix + (key,)
        if isinstance(val, dict):
            yield from paths(val, prefix + (key,))


def change(ch, doc):
    """One change of a document."""
    where = ch.pick(list(paths(doc)), "field")
    inner = doc
    for key in where[:-1]:
        inner = inner[key]
    oper = ch.pick(["remove", "replace", "rename", "add"], "change")
    if oper == "remove":
        del inner[where[-1]]
    elif oper == "replace":
        inner[where[-1]] = copy.deepcopy(ch.pick(REPLACE, "by"))
    elif oper == "rename":
        val = inner.pop(where[-1])
        inner[ch.pick(KEYS, "to")] = val
    else:
        inner[ch.pick(KEYS, "new")] = copy.deepcopy(
            ch.pick(["b", "x", 1, {}, None], "value")
        )


def mutated(kind, changes):
    """Every few changes of a document's fields."""
    cls, base, by_schema, sound = KINDS[kind]

    def body(ch):
        how = ch.pick(["manager", "params", "none"], "schemas from")
        strict = how != "none" and ch.flag("no unknown fields")
        mgr = MANAGERS["strict" if strict else "lax"]
        kwargs = {}
        if how == "manager":
            kwargs["manager"] = mgr
        elif how == "params":
            kwargs["params"] = SerializableParams(schema=mgr.get(cls))
        doc = copy.deepcopy(base)
        for _ in range(changes):
            change(ch, doc)
        source = cls(copy.deepcopy(base), **kwargs)
        if kind == "registry":
            # internal forms have integer keys
            ch.check(source.valid, "the unchanged document isn't valid")
        direct = ch.flag("constructed")
        if direct:
            obj = attempt(cls, copy.deepcopy(doc), **kwargs)
        else:
            obj = attempt(source.load_str, json.dumps(doc))
        ch.step()
        where = f"{doc} ({how}, {'strict' if strict else 'lax'})"
        if how != "none":
            fine = by_schema(doc, strict)
            if how == "params" and kind == "registry":
                # the registry's schema doesn't cover its enumerations
                fine = shallow(doc, strict)
            if not fine:
                ch.check(
                    rejected(obj), f"{where}: violates its schema, accepted"
                )
                ch.outcome("rejected")
                return
        good = sound(doc)
        if good is None:
            ch.check(
                rejected(obj), f"{where}: inconsistent, accepted"
            )
            ch.outcome("inconsistent")
            return
        if how == "none" and isinstance(obj, Exception) and not typed(kind, doc):
            ch.outcome("refused without a schema")
            return
        ch.check(
            not isinstance(obj, Exception), lambda: f"{where}: raised {obj!r}"
        )
        ch.check(obj.valid, f"{where}: not valid")
        usable(ch, kind, obj, good, where)
        want = {"type": base["type"], **doc}
        if kind == "registry":
            want.setdefault("enums", {})
            want.setdefault("mappings", {})
            for sub in want["enums"].values():
                sub.setdefault("type", "user_enum")
                if sub["default"] is None:
                    sub["default"] = good[1][sub["name"]][1]
            want = keyed(want)
            for sub in want["enums"].values():
                sub.update(keyed(sub))
        elif kind == "enum":
            want = keyed(want)
            if want["default"] is None:
                want["default"] = good[1]
        ch.equal(json.loads(obj.json_str()), want, "what was loaded")
        survives(ch, obj, where)
        if kind == "registry":
            # identifiers of what is added from now on are new ones
            names = [n for n in ("na", "nb", "x") if n not in good[1]]
            new = [obj.add(user_enum(n, {3: "v"})) for n in names]
            ch.equal(
                len({*new, *good[0]}), len(new) + len(good[0]),
                f"{where}: identifiers {new} of added ones",
            )
            usable(ch, kind, obj, good, where)
            for ident, name in zip(new, names):
                ch.equal(obj.get_enum(ident).name, name, f"{where}: {ident}")
            survives(ch, obj, f"{where}, added to")
        ch.state(want)
        ch.outcome("fine")

    return body


def typed(kind, doc):
    """Is a document without schema one that has to load?"""
    if kind in ("enum", "registry", "simple"):
        return KINDS[kind][2](doc, False)
    return True


def keyed(doc):
    """Integer keys, as they are written."""
    return {
        **doc, "mappings": {
            str(int(k)): v for k, v in doc.get("mappings", {}).items()
        },
    }


def shallow(doc, strict):
    """The schema of registries, leaving out that of enumerations."""
    return schema_registry({**doc, "enums": {}}, strict) and isinstance(
        doc.get("enums", {}), dict
    ) and all(isinstance(val, dict) for val in doc.get("enums", {}).values())


def usable(ch, kind, obj, good, what):
    """A loaded object is what its document says."""
    if kind == "enum":
        consistent(ch, obj, good[0], good[1], what)
    elif kind in ("int", "float"):
        ch.check(obj.primitive is good, f"{what}: another primitive")
    elif kind == "registry":
        maps, tables = good
        for ident, name in maps.items():
            enum = obj.get_enum(ident)
            ch.equal(enum.name, name, f"{what}: enumeration {ident}")
            consistent(ch, enum, *tables[name], f"{what}: {name}")
        for unknown in (-99, 50):
            if unknown not in maps:
                got = attempt(obj.get_enum, unknown)
                ch.check(isinstance(got, Exception), f"{unknown}: {got!r}")


def cut(kind):
    """No part of a document, nor anything else, loads."""
    cls, base, _, _ = KINDS[kind]
    text = cls(copy.deepcopy(base)).json_str()
    others = [
        "null", "[]", "true", "0", "1.5", '"x"', "", "nonsense", "{} {}",
        '[["type", "x"]]', "NaN", text + "}", text + text, "[" + text + "]",
    ]

    def body(ch):
        mgr = MANAGERS[ch.pick(["strict", "none"])]
        source = cls(copy.deepcopy(base), manager=mgr)
        where = ch.choose(len(text) + len(others))
        ch.step()
        given = text[:where] if where < len(text) else others[
            where - len(text)
        ]
        got = attempt(source.load_str, given)
        ch.check(
            rejected(got), lambda: f"{given!r} was loaded: {got.data}"
        )
        survives(ch, source, "the source")
        ch.outcome(where)

    return body


LEAVES = [
    1, 0, -1, True, False, None, "", "a", "true", "1", 1.5, -0.25, 1e300,
    1 << 70, "\u00e9\u4e16\U0001f600", "\x00\n\"\\", "\ud800", [], {}, [1, "a"],
    [[1], {"k": None}], {"k": 1}, {"": {"k": [True]}},
]


class Other(Serializable):
    """Another kind of object."""


def objects(fields):
    """Objects of any JSON-shaped data."""

    def body(ch):
        cls = ch.pick([Serializable, Simple])
        data = {}
        for key in ["a", "", "name", "\u00fc"][:fields]:
            if ch.flag(f"has {key!r}"):
                leaves = LEAVES
                if key == "name":
                    leaves = ["n", "", "\u00e9"]
                data[key] = copy.deepcopy(ch.pick(leaves, key))
        if ch.flag("own type"):
            data["type"] = "mine"
        given = copy.deepcopy(data)
        obj = cls(data)
        ch.step()
        want = {"type": cls.__name__.lower(), **given}
        ch.equal(obj.name, given.get("name", cls.__name__), "name")
        new = survives(ch, obj, f"{cls.__name__} {given}", want)
        ch.check(obj.valid and new.valid, "valid without a schema")
        other = Other(copy.deepcopy(new.data))
        ch.check(obj != other, "equal to an object of another kind")
        for key in list(new.data):
            changed = copy.deepcopy(new.data)
            changed[key] = "something else"
            ch.check(obj != cls(changed), f"equal though {key!r} differs")
            del changed[key]
            if key != "type":
                ch.check(obj != cls(changed), f"equal though {key!r} missing")
        ch.check(
            obj != 1 and obj is not None and obj != "a", "equal to a value"
        )
        ch.outcome(json.dumps(want))

    return body


def primitives(ch):
    """Primitives' serializable forms."""
    mkind = ch.pick(["none", "strict", "lax"])
    mgr = MANAGERS[mkind]
    prim = ch.pick(list(Primitive))
    obj = from_primitive(prim, manager=mgr)
    ch.step()
    ch.check(obj.valid, f"{prim} isn't valid")
    val = prim.value
    want = {
        "name": val.name, "size": val.size, "signed": val.signed,
        "integer": val.type is int, "type": "serializable_primitive",
    }
    if val.type is int:
        want["min"] = -(1 << (8 * val.size - 1)) if val.signed else 0
        want["max"] = (1 << (8 * val.size - (1 if val.signed else 0))) - 1
    new = survives(ch, obj, f"{prim}", want)
    ch.check(new.primitive is prim, "another primitive")
    every = get_all(manager=mgr)
    ch.equal(len(every), len(Primitive), "all primitives")
    ch.check(obj in every and new in every, f"{prim} isn't among all")
    ch.equal(sum(1 for x in every if x == obj), 1, "one equal to it")
    ch.outcome(prim.name)


def registries(depth):
    """Registrations and loads of registries."""

    def body(ch):
        mkind = ch.pick(["none", "strict"])
        mgr = MANAGERS[mkind]
        reg = EnumRegistry(manager=mgr)
        ch.check(reg.valid, "an empty registry isn't valid")
        known = []
        for step in range(depth):
            oper = ch.pick(
                ["end", "add x", "add y", "class", "load", "null", "bad"]
            )
            ch.step()
            if oper == "end":
                break
            if oper == "load":
                new = reg.load_str(reg.json_str())
                same(ch, reg, new, "registry")
                ch.check(new.valid, "not valid when loaded")
                reg = new
            elif oper == "null":
                got = attempt(reg.load_str, "null")
                ch.check(rejected(got), "null is a registry")
            elif oper == "bad":
                # leaves the source unchanged
                doc = json.loads(reg.json_str())
                doc["mappings"]["77"] = "missing"
                got = attempt(reg.load_str, json.dumps(doc))
                ch.check(rejected(got), "a missing enumeration was accepted")
            else:
                if oper == "class":
                    name = "color"
                    values = {2: "green", 0: "red"}
                    got = attempt(
                        reg.add_from_enum,
                        IntEnum("Color", {v: k for k, v in values.items()}),
                    )
                else:
                    name = oper[-1]
                    values = {step: "v", 9: "w"} if step != 9 else {9: "v"}
                    got = attempt(reg.add, user_enum(name, values, None, mgr))
                if name in [n for n, _ in known]:
                    ch.check(
                        isinstance(got, Exception), f"{name} added twice"
                    )
                else:
                    ch.equal(got, len(known), f"identifier of {name}")
                    known.append((name, values))
            for ident, (name, values) in enumerate(known):
                enum = reg.get_enum(ident)
                ch.equal(enum.name, name, f"enumeration {ident}")
                consistent(ch, enum, values, list(values.values())[0], name)
            for unknown in (len(known), -1, 77, "0", None):
                got = attempt(reg.get_enum, unknown)
                ch.check(isinstance(got, Exception), f"{unknown} is {got!r}")
            survives(ch, reg, "registry", {
                "type": "enum_registry",
                "mappings": {str(i): n for i, (n, _) in enumerate(known)},
                "enums": {
                    name: {
                        "type": "user_enum", "name": name,
                        "mappings": {str(k): v for k, v in vals.items()},
                        "default": list(vals.values())[0],
                    } for name, vals in known
                },
            })
        ch.state(known)
        ch.outcome(repr(known))

    return body


def managers(ch):
    """Schema managers find exactly what was added."""
    root = pathlib.Path(tempfile.mkdtemp(
        prefix="c23-", dir=os.environ.get("MC_SCRATCH", "/tmp")
    ))
    try:
        (root / "d").mkdir()
        (root / "d" / "Simple.json").write_text(json.dumps(
            {"x": {"type": "integer"}, "type": {"type": "string"}}
        ))
        (root / "Other.yaml").write_text("x: {type: string}\n")
        mgr = SchemaManager()
        have = {}
        for _ in range(3):
            oper = ch.pick(["package", "dir", "add", "named", "end"])
            ch.step()
            if oper == "end":
                break
            if oper == "package":
                mgr.load_package(require_all=True)
                have.update(dict.fromkeys(
                    ["UserEnum", "EnumRegistry", "SerializablePrimitive"], 1
                ))
            elif oper == "dir":
                mgr.load_dir(root / "d", require_all=True)
                have["Simple"] = "dir"
            else:
                name = "Simple" if oper == "named" else None
                got = attempt(
                    mgr.add, root / "Other.yaml", name, allow_unknown=True
                )
                key = name or "Other"
                ch.equal(
                    isinstance(got, Exception), key in have, f"{key} again"
                )
                have.setdefault(key, "add")
        for cls in (Simple, Other, UserEnum, Serializable):
            got = attempt(mgr.get, cls)
            ch.equal(
                isinstance(got, Exception), cls.__name__ not in have,
                f"schema of {cls.__name__}",
            )
        for key, data, source in (
            (Simple, {"x": 1}, "dir"), (Simple, {"x": "t"}, "add"),
            (Simple, {}, None), (Other, {"x": 1}, "no"),
        ):
            if key.__name__ not in have:
                continue
            want = have[key.__name__] == source or (
                data == {} and have[key.__name__] == "add"
            )
            ch.equal(
                key(dict(data), manager=mgr).valid, want, f"validity of {data}"
            )
        ch.outcome(sorted(have.items(), key=str))
    finally:
        shutil.rmtree(root)


class Steps(io.StringIO):
    """A stream at which others may run."""

    def write(self, text):
        if sched.CURRENT is not None:
            sched.CURRENT.point("write")
        return super().write(text)


def together(counts, write):
    """Threads add enumerations while another writes the registry."""

    def body(ch):
        mgr = MANAGERS["strict"]
        forms, results = [], []

        def main():
            reg = EnumRegistry(manager=mgr)
            reg.add(user_enum("base", {0: "a"}))

            def adder(who, count):
                def func():
                    for i in range(count):
                        # the last one is contended for
                        name = "xyz"[i] if i else "shared"
                        try:
                            got = reg.add(
                                user_enum(name, {who: "a", who + 5: "b"})
                            )
                            results.append((name, who, got))
                        except AssertionError:
                            results.append((name, who, None))
                return func

            def writer():
                for _ in range(write):
                    with Steps() as stream:
                        reg.json(stream)
                        forms.append(stream.getvalue())

            tasks = [
                sched.spawn(f"add{i}", adder(i, n))
                for i, n in enumerate(counts)
            ]
            if write:
                tasks.append(sched.spawn("write", writer))
            sched.join_all(tasks)
            return reg

        box = []
        sched.watch(OPS)
        done = sched.run(ch, lambda: box.append(main()), timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        reg = box[0]
        got = [r for r in results if r[2] is not None]
        names = {r[0] for r in results}
        ch.equal(sorted(r[0] for r in got), sorted(names), "added once each")
        ch.equal(
            sorted(r[2] for r in got), list(range(1, len(got) + 1)),
            "identifiers",
        )
        for name, who, ident in got:
            enum = reg.get_enum(ident)
            ch.equal(enum.name, name, f"enumeration {ident}")
            consistent(ch, enum, {who: "a", who + 5: "b"}, "a", name)
        survives(ch, reg, "registry")
        for form in forms:
            old = attempt(reg.load_str, form)
            ch.check(
                not rejected(old), lambda: f"what was written isn't valid: "
                f"{form}: {old!r}",
            )
            full = json.loads(reg.json_str())
            part = json.loads(form)
            ch.check(
                set(part["mappings"].items())
                <= set(full["mappings"].items())
                and all(full["enums"].get(k) == v
                        for k, v in part["enums"].items())
                and set(part["enums"]) == set(part["mappings"].values()),
                f"written while adding: {form}",
            )
        ch.outcome(sorted(map(str, results)))

    return body


def scenarios(tier):
    deep = tier == "thorough"
    out = [
        Scenario("construct-2", construct(2, deep)),
        Scenario("construct-3", construct(3, deep)),
        Scenario("extremes", extremes),
        Scenario("lookups", lookups(3 if deep else 2)),
        Scenario("primitives", primitives),
        Scenario("objects", objects(4 if deep else 3)),
        Scenario("registries", registries(5 if deep else 4)),
        Scenario("managers", managers),
        Scenario("together-2", together([2, 1], 0), 3 if deep else 2),
        Scenario("together-write", together([2], 1), 3 if deep else 2),
        Scenario("together-all", together([1, 1], 1), 2 if deep else 1),
    ]
    for kind in KINDS:
        out.append(Scenario(f"cut-{kind}", cut(kind)))
        out.append(Scenario(f"mutated-{kind}", mutated(kind, 1)))
        if deep and kind != "registry":
            out.append(Scenario(f"mutated2-{kind}", mutated(kind, 2)))
    return out
