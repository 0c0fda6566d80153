"""C08: typed values accept exactly what they can represent."""
from decimal import Decimal
from fractions import Fraction
import math
import struct

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.classes.byte_buffer import ByteBuffer
from vtelem.classes.event_queue import EventQueue
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.enums.primitive import Primitive

from mc import ref
from mc.explore import Scenario

ASSUMPTIONS = [
    "bounds: boundary alphabet of values of every Python kind, buffers up to "
    "24 bytes, histories to the stated depth",
    "whether an integer field takes a boolean is left open (the language "
    "makes booleans integers); if taken it must be stored as 0 or 1",
]
PRIM = {p.value.name: p for p in Primitive}
FMAX = 3.4028234663852886e38  # largest 32-bit float
FOVER = 3.4028235677973366e38  # smallest double which rounds beyond it
INTS = sorted(
    {0, 1, 2, 5, -1, -2, 100, 2**70, -(2**70)}
    | {
        s * 2**b + d
        for b in (7, 8, 15, 16, 31, 32, 63, 64)
        for s in (1, -1)
        for d in (-1, 0, 1)
    }
)
FLOATS = [
    0.0, -0.0, 1.0, -1.5, 0.1, 1e-60, 2.0**-149, 5e-324, FMAX, -FMAX,
    math.nextafter(FOVER, 0.0), FOVER, -FOVER, 1e39, -1e300,
    1.7976931348623157e308, ref.INF, -ref.INF, ref.NAN, 2.0, 255.0,
]
OTHER = [None, "1", "", b"1", [1], (1,), {}, 1j, Decimal(1), Fraction(1), object]
VALUES = INTS + FLOATS + [False, True] + OTHER


def kind(tname):
    """Python kind of a type."""
    if tname == "boolean":
        return bool
    return float if tname in ("float", "double") else int


def acceptable(tname, val):
    """True, False, or None where left open."""
    want = kind(tname)
    if type(val) is bool and want is int:
        return None
    if type(val) is not want:
        return False
    try:
        ref.enc(tname, val)
    except (struct.error, OverflowError):
        return False
    return True


def default(tname):
    return kind(tname)()


def single(tname, val):
    """What reading back from the wire gives."""
    return ref.dec(tname, ref.enc(tname, val))


def equal(one, two):
    """Equal, also for NaN; kinds matter."""
    if type(one) is not type(two):
        return False
    if isinstance(one, float) and math.isnan(one):
        return math.isnan(two)
    return one == two


def writes(ch):
    """Every type, every previous value, every new value, every way."""
    tname = ch.pick(list(ref.TYPES), "type")
    via = ch.pick(["field", "channel", "command", "env", "envcommand"], "via")
    start = ch.pick([None, ref.BOUNDARY[tname][1], ref.BOUNDARY[tname][-1]])
    size = ref.TYPES[tname][1]
    for val in VALUES:
        seen = []
        env = None
        if via == "field":
            item = TypePrimitive(
                PRIM[tname], lambda prev, cur, log=seen: log.append((prev, cur))
            )
            write = item.set
        elif via in ("channel", "command"):
            queue = EventQueue()
            item = Channel("c", PRIM[tname], 1.0, queue)
            write = item.command if via == "command" else item.set
        else:
            env = ChannelEnvironment(256, app_id_basis=0.5)
            cid = env.add_channel("c", PRIM[tname], 1.0, True)
            item = env.channel_registry.get_item(cid)
            queue = env.event_queue

            def write(value, time, target=env, chan=cid, how=via):
                target.set_time(time)
                if how == "env":
                    return target.set_now(chan, value)
                return target.command_channel("c", value)

        def events():
            if via == "field":
                out = list(seen)
                seen.clear()
                return out
            return [e[1:] for e in queue.consume()]

        ch.check(equal(item.get(), default(tname)), "initial value")
        when = 0.0
        if start is not None:
            when = 1.5
            ch.check(write(start, when) is True, f"{tname} refused {start!r}")
            events()
        before = item.get()
        result = write(val, 2.5)
        want = acceptable(tname, val)
        ch.step()
        if want is None:
            want = result
        ch.check(
            result is want, lambda r=result, v=val: f"{tname}: {v!r} gave {r}"
        )
        after = events()
        if not want:
            ch.check(equal(item.get(), before), f"{tname}: value changed")
            ch.equal(item.last_set, when, "time of a refused write")
            ch.equal(after, [], "events of a refused write")
        else:
            stored = kind(tname)(val)
            ch.check(
                equal(item.get(), stored),
                lambda g=item.get(), v=val: f"{tname}: {v!r} stored as {g!r}",
            )
            ch.equal(item.last_set, 2.5, "time of a write")
            if not (isinstance(val, float) and (val != val or before != before)):
                count = 0 if before == val else 1
                ch.equal(len(after), count, f"events for {before!r} -> {val!r}")
                if count:
                    ch.equal(
                        after[0], ((before, when), (stored, 2.5)), "event"
                    )
            # serialisable, declared size, reads back
            ch.equal(item.size(), size, "size")
            ch.equal(item.buffer(), ref.enc(tname, stored), "bytes")
            buf = ByteBuffer()
            ch.equal(item.write(buf), size, "bytes written")
            ch.equal(bytes(buf.data[: buf.size]), ref.enc(tname, stored), "wire")
        ch.outcome((via, want, len(after)))
    ch.state((tname, via, repr(start)))


def initial(ch):
    """Initial values follow the same rule."""
    tname = ch.pick(list(ref.TYPES), "type")
    tracked = ch.flag("tracked")
    for val in VALUES:
        env = ChannelEnvironment(256, app_id_basis=0.5)
        want = acceptable(tname, val)
        try:
            cid = env.add_channel("c", PRIM[tname], 1.0, tracked, (val, 3.0))
            done = True
        except AssertionError:
            done = False
        ch.step()
        ch.check(
            want is None or done == want, f"{tname}: initial {val!r}: {done}"
        )
        if done:
            ch.check(equal(env.get_value(cid), kind(tname)(val)), "stored")
        ch.outcome((want, done))
    ch.state((tname, tracked))


def buffers(orders):
    """Every position in a partly filled buffer."""

    def body(ch):
        tname = ch.pick(list(ref.TYPES), "type")
        order = ch.pick(orders, "order")
        fill = ch.pick([0, 1, 4, 9, 16], "fill")
        size = ref.TYPES[tname][1]
        pos = ch.pick([None] + list(range(0, fill + 4)), "pos")
        own = ch.pick(sorted({0, fill // 2, fill}), "own position")
        for val in ref.BOUNDARY[tname]:
            data = bytearray((i * 37 + 11) % 256 for i in range(fill))
            buf = ByteBuffer(bytearray(data), size=fill, order=order)
            buf.set_pos(own)
            item = TypePrimitive(PRIM[tname])
            ch.check(item.set(val), f"{tname} refused {val!r}")
            ch.equal(item.write(buf, pos), size, "written")
            at = own if pos is None else pos
            wire = struct.pack(order + ref.TYPES[tname][0], val)
            want = bytearray(data)
            if len(want) < at + size:
                want += bytes(at + size - len(want))
            want[at : at + size] = wire
            ch.equal(bytes(buf.data[: len(want)]), bytes(want), "buffer")
            ch.equal(buf.size, max(fill, at + size), "size")
            ch.equal(
                buf.get_pos(), own + size if pos is None else own, "position"
            )
            back = TypePrimitive(PRIM[tname])
            here = buf.get_pos()
            got = back.read(buf, at)
            ch.equal(buf.get_pos(), here, "position after reading")
            ch.check(ref.same(tname, got, val), f"read {got!r}, wrote {val!r}")
            ch.check(ref.same(tname, back.get(), val), "stored")
            if pos is None:
                buf.set_pos(own)
                got = back.read(buf)
                ch.check(ref.same(tname, got, val), "read at own position")
                ch.equal(buf.get_pos(), own + size, "position after own read")
            # reading past the end is refused, the position kept
            here = buf.get_pos()
            try:
                back.read(buf, buf.size - size + 1)
                ch.check(False, "read past the end")
            except AssertionError:
                pass
            ch.equal(buf.get_pos(), here, "position after a refused read")
            ch.check(ref.same(tname, back.get(), val), "value kept")
            ch.step(3)
        ch.outcome((tname, fill, pos is None))

    return body


def precision(ch):
    """Accepted 32-bit floats read back to single precision."""
    val = ch.pick(FLOATS, "value")
    item = TypePrimitive(Primitive.FLOAT)
    if not item.set(val):
        ch.check(acceptable("float", val) is False, f"refused {val!r}")
        ch.outcome("refused")
        return
    buf = ByteBuffer()
    ch.equal(item.write(buf), 4, "size")
    got = TypePrimitive(Primitive.FLOAT).read(buf, 0)
    ch.check(equal(got, single("float", val)), f"{val!r} read as {got!r}")
    ch.outcome(got == val)


def sequence(ch):
    """Fields written one after the other are read back one after the other."""
    names = [
        ch.pick(["boolean", "int16", "float", "uint64"], "type") for _ in range(4)
    ]
    buf = ByteBuffer()
    total = 0
    for name in names:
        item = TypePrimitive(PRIM[name])
        item.set(ref.BOUNDARY[name][1])
        total += item.write(buf)
    ch.equal(buf.size, total, "size")
    ch.equal(
        bytes(buf.data),
        b"".join(ref.enc(n, ref.BOUNDARY[n][1]) for n in names),
        "bytes",
    )
    buf.set_pos(0)
    chomp = ch.flag("chomp")
    for i, name in enumerate(names):
        got = TypePrimitive(PRIM[name]).read(buf, chomp=chomp)
        ch.check(ref.same(name, got, ref.BOUNDARY[name][1]), f"field {i}")
    ch.equal(buf.remaining, 0, "left over")
    ch.outcome(total)


def history(depth):
    """Writes and increments against a model."""
    menu = {
        "uint8": [("s", 0), ("s", 254), ("s", 256), ("a", 1), ("a", -1), ("a", 300), ("s", 1.0)],
        "int8": [("s", 127), ("s", -128), ("a", 1), ("a", -1), ("a", -255), ("s", "x")],
        "boolean": [("s", True), ("s", False), ("s", 1), ("a", True), ("s", None)],
        "uint64": [("s", 2**64 - 1), ("a", 1), ("a", -1), ("s", -1), ("a", 2**64)],
        "int64": [("s", 2**63 - 1), ("a", 1), ("a", -(2**63)), ("s", -(2**63)), ("a", 0)],
        "float": [("s", FMAX), ("a", FMAX), ("a", 0.25), ("s", 1), ("s", -1e39), ("a", -FMAX)],
        "double": [("s", 1e308), ("a", 1e308), ("a", -0.5), ("s", 3), ("s", -1e308)],
    }

    def body(ch):
        tname = ch.pick(list(menu), "type")
        command = ch.flag("command")
        queue = EventQueue()
        chan = Channel("c", PRIM[tname], 1.0, queue)
        value, when = default(tname), 0.0
        for step in range(depth):
            oper, val = ch.pick(menu[tname], "op")
            time = 1.0 + step
            new = val if oper == "s" else value + val
            want = acceptable(tname, new)
            if want is None:
                want = False
            if command:
                got = chan.command(val, time, add=oper == "a")
            else:
                got = (chan.add if oper == "a" else chan.set)(val, time)
            ch.check(
                got is want, f"{tname} at {value!r}: {oper} {val!r} gave {got}"
            )
            events = [e[1:] for e in queue.consume()]
            expect = []
            if want:
                if new != value:
                    expect = [((value, when), (new, time))]
                value, when = new, time
            ch.check(equal(chan.get(), value), f"value {chan.get()!r}")
            ch.equal(chan.last_set, when, "time")
            ch.equal(events, expect, "events")
            ch.state((tname, repr(value)))
            ch.outcome((want, len(expect)))
            ch.step()

    return body


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("writes", writes),
        Scenario("initial", initial),
        Scenario("buffers", buffers(["!", "<", ">", "="] if deep else ["!", "<"])),
        Scenario("precision", precision),
        Scenario("sequence", sequence),
        Scenario("history", history(6 if deep else 4)),
    ]
