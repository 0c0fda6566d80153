"""C22: the HTTP service answers every request once, correctly framed."""
import io
import json
import os
import pathlib
import subprocess
import sys
from urllib.parse import unquote_plus

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.http import HttpDaemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.factories.telemetry_server import register_http_handlers
from vtelem.mtu import Host

from mc.explore import Scenario, Violation

ASSUMPTIONS = [
    "methods GET, HEAD and POST (the ones the handler serves); paths of "
    "unreserved characters; text handlers, declared as UTF-8",
    "requests run through the real request handler over stand-in sockets, "
    "and (a few histories) over the loopback interface in real threads",
    "a field given both in the query and in the body, and fields of names "
    "with quotes, are left open; a part's body is its lines, the last one "
    "being empty",
    "form contents that contain the chosen boundary at the start of a line "
    "are not valid and out of scope",
]
HELPER = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    "helpers", "http_net.py",
)


class Raw(io.RawIOBase):
    """What a client sent, in pieces of limited size."""

    def __init__(self, data, piece):
        super().__init__()
        self.data = data
        self.piece = piece
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, buf):
        count = min(len(buf), self.piece, len(self.data) - self.pos)
        buf[:count] = self.data[self.pos : self.pos + count]
        self.pos += count
        return count


class Sock:
    """A connection of a client that sends this and closes its end."""

    def __init__(self, data, piece=1 << 20):
        self.raw = Raw(data, piece)
        self.out = b""
        self.closed = 0

    def makefile(self, mode="r", buffering=-1):
        assert "r" in mode, mode
        del buffering
        return io.BufferedReader(self.raw, 1)

    def recv(self, count, *_):
        buf = bytearray(count)
        return bytes(buf[: self.raw.readinto(buf)])

    def sendall(self, data, *_):
        if sched.CURRENT is not None:
            sched.CURRENT.point("send")
        if self.closed:
            raise OSError("closed")
        self.out += bytes(data)

    def send(self, data, *_):
        self.sendall(data)
        return len(data)

    def settimeout(self, _):
        pass

    def setsockopt(self, *_):
        pass

    def getsockname(self):
        return ("127.0.0.1", 80)

    def getpeername(self):
        return ("127.0.0.1", 5000)

    def fileno(self):
        return -1

    def shutdown(self, _):
        pass

    def close(self):
        self.closed += 1


class Service:
    """An http service."""

    def __init__(self, handler=MapperAwareRequestHandler):
        self.daemon = HttpDaemon("web", Host("127.0.0.1", 0), handler)
        self.errors = []
        self.daemon.server.handle_error = self.failed

    def failed(self, *_):
        self.errors.append(repr(sys.exc_info()[1]))

    def close(self):
        self.daemon.server.server_close()

    def talk(self, data, piece=1 << 20):
        """What a client gets that sends these bytes."""
        sock = Sock(data, piece)
        with_errors = len(self.errors)
        self.daemon.server.process_request_thread(sock, ("127.0.0.1", 5000))
        if len(self.errors) > with_errors and not sock.out:
            raise Violation(
                f"no answer to {data[:80]!r}: {self.errors[-1]}"
            )
        return sock


class Answer:
    """A response, strictly parsed."""

    def __init__(self, data, head=False):
        end = data.find(b"\r\n\r\n")
        if end < 0:
            raise Violation(f"no complete response: {data[:200]!r}")
        lines = data[:end].decode("latin-1").split("\r\n")
        version, status, *reason = lines[0].split(" ", 2)
        if not version.startswith("HTTP/1.") or not status.isdecimal():
            raise Violation(f"bad status line {lines[0]!r}")
        self.status = int(status)
        self.reason = reason[0] if reason else ""
        self.headers = {}
        for line in lines[1:]:
            name, sep, value = line.partition(":")
            if not sep or not name or name != name.strip() or any(
                ord(c) < 32 and c != "\t" for c in line
            ):
                raise Violation(f"bad header {line!r}")
            if name.lower() in self.headers:
                raise Violation(f"header {name} sent twice")
            self.headers[name.lower()] = value.strip()
        if any(ord(c) < 32 for c in lines[0]):
            raise Violation(f"bad status line {lines[0]!r}")
        if any(len(line) > 60000 for line in lines):
            raise Violation("status line or header that clients refuse")
        if "content-length" not in self.headers:
            raise Violation("no content length")
        count = int(self.headers["content-length"])
        if head:
            count = 0
        rest = data[end + 4 :]
        if len(rest) < count:
            raise Violation(f"{len(rest)} bytes of content, {count} declared")
        self.body = rest[:count]
        self.rest = rest[count:]


def only(data, head=False):
    """The one response in this data."""
    if not data:
        raise Violation("no answer")
    ans = Answer(data, head)
    if ans.rest:
        raise Violation(f"{ans.rest[:60]!r} sent after the response")
    return ans


def message(method, path, body=None, ctype=None, length=None, version="1.1",
            headers=()):
    """The bytes of a request."""
    lines = [f"{method} {path} HTTP/{version}", "Host: x"]
    lines += list(headers)
    if ctype is not None:
        lines.append(f"Content-Type: {ctype}")
    if length is None and body is not None:
        length = len(body)
    if length is not None:
        lines.append(f"Content-Length: {length}")
    return "\r\n".join(lines + ["", ""]).encode("latin-1") + (body or b"")


CONTENTS = {
    "plain": (True, '{"a": 1}'),
    "empty": (True, ""),
    "wide": (True, "h\u00e9llo \u20ac \U0001f600"),
    "lines": (True, "one\r\ntwo\n\n"),
    "long": (True, "\u00fc" * 70000),
    "fail": (False, "no such thing"),
    "fail-empty": (False, ""),
    "fail-wide": (False, "\u20ac is not latin"),
    "fail-lines": (False, "one\r\nX-Evil: 1\r\n\r\ntwo\n"),
    "fail-long": (False, "z" * 100000),
    "fail-control": (False, "a\x00b\x1bc"),
    "raise": KeyError("boom"),
    "raise-os": OSError("boom"),
    "raise-value": ValueError("boom"),
    "surrogate": (True, "\udc80"),
    "number": (True, 5),
    "nothing": None,
}


class World:
    """A service with handlers, and what should be registered."""

    def __init__(self):
        self.service = Service()
        self.calls = []
        self.listed = {("GET", "/"): "request index"}
        self.kinds = {}

    def add(self, method, path, kind, description="about", **more):
        calls = self.calls

        def handle(request, data):
            calls.append((method, path, kind, request.command, dict(data)))
            what = CONTENTS[kind]
            if isinstance(what, Exception):
                raise what
            return what

        self.service.daemon.add_handler(
            method, path, handle, description, **more
        )
        full = "/" + path.lower().lstrip("/")
        self.listed[(method, full)] = description
        self.kinds[(method, full)] = (path, kind, description, more)

    def request(self, ch, method, path, **how):
        """Send a request, judge the answer."""
        self.calls.clear()
        query = how.pop("query", "")
        fields = how.pop("fields", {})
        sock = self.service.talk(
            message(method, path + query, **how), how.pop("piece", 1 << 20)
        )
        ans = only(sock.out, method == "HEAD")
        ch.step()
        key = ("GET" if method == "HEAD" else method, path.lower())
        what = f"{method} {path}"
        if key not in self.listed:
            ch.check(400 <= ans.status < 600, f"{what}: {ans.status}")
            ch.equal(self.calls, [], f"{what}: handlers run")
            return ans
        if key == ("GET", "/"):
            ch.equal(ans.status, 200, f"{what}: status")
            return ans
        name, kind, description, more = self.kinds[key]
        ch.equal(
            [c[:4] for c in self.calls], [(key[0], name, kind, method)],
            f"{what}: handlers run",
        )
        ch.equal(self.calls[0][4], fields, f"{what}: parameters")
        result = CONTENTS[kind]
        fine = (
            isinstance(result, tuple) and result[0]
            and isinstance(result[1], str) and "\udc80" not in result[1]
        )
        if not fine:
            ch.check(
                400 <= ans.status < 600, f"{what} ({kind}): {ans.status}"
            )
            if isinstance(result, tuple) and result[0] is False:
                ch.check(ans.status < 500, f"{what} ({kind}): {ans.status}")
            return ans
        ch.equal(ans.status, 200, f"{what} ({kind}): status")
        size = len(result[1].encode())
        ch.equal(
            ans.headers["content-length"], str(size), f"{what}: length"
        )
        if method != "HEAD":
            ch.check(ans.body == result[1].encode(), f"{what}: content")
        want = more.get("response_type", "application/json")
        ch.equal(
            ans.headers.get("content-type", "").replace(" ", "").lower(),
            f"{want};charset=utf-8", f"{what}: type",
        )
        for field, value in (more.get("data") or {}).items():
            if str(value).isascii() and str(value).isprintable():
                ch.equal(
                    ans.headers.get(field.lower()), str(value),
                    f"{what}: {field}",
                )
        if description.isascii() and description.isprintable():
            ch.equal(
                ans.headers.get("description"), description,
                f"{what}: description",
            )
        return ans

    def index(self, ch):
        """The registered paths, and only these, are listed."""
        ans = only(self.service.talk(message("GET", "/")).out)
        ch.equal(ans.status, 200, "status of the index")
        got = {}
        for method, items in json.loads(ans.body.decode()).items():
            for item in items:
                key = (method, item["path"])
                ch.check(key not in got, f"{key} listed twice")
                got[key] = item.get("description")
        ch.equal(got, self.listed, "registered requests")


def single(kinds, versions):
    """Every handler asked in every way."""

    def body(ch):
        world = World()
        try:
            kind = ch.pick(kinds)
            world.add("GET", "one", kind)
            world.add("POST", "two", kind, data={"Random": 5})
            method = ch.pick(["GET", "HEAD", "POST", "PUT", "get"])
            path = ch.pick(["/one", "/two", "/", "/nope", "/one/", "/ONE"])
            version = ch.pick(versions)
            keep = ch.pick([(), ("Connection: keep-alive",),
                            ("Connection: close",)])
            if method in ("GET", "HEAD", "POST"):
                world.request(
                    ch, method, path, version=version, headers=keep,
                    body=b"" if method == "POST" and ch.flag() else None,
                )
            else:
                ans = only(world.service.talk(
                    message(method, path, version=version)
                ).out)
                ch.check(400 <= ans.status < 600, f"{method}: {ans.status}")
                ch.equal(world.calls, [], "handlers run")
            world.index(ch)
            ch.outcome((kind, method, path))
        finally:
            world.service.close()

    return body


FORM = "multipart/form-data; boundary=xyz"
URL = "application/x-www-form-urlencoded"
REQUESTS = [
    ("GET", "/one", {}),
    ("POST", "/two", {"body": b"a=1&b=", "ctype": URL,
                      "fields": {"a": ["1"], "b": [""]}}),
    ("GET", "/nope", {}),
    ("HEAD", "/nope", {}),
    ("POST", "/one", {"body": b"zzz", "ctype": "text/plain"}),
    ("HEAD", "/one", {}),
    ("GET", "/bad", {}),
    ("GET", "/fail", {"query": "?x=%20y", "fields": {"x": [" y"]}}),
    ("POST", "/fail", {"body": b"--xyz--\r\n", "ctype": FORM}),
    ("POST", "/two", {"body": b"", "ctype": URL, "length": "abc",
                      "wrong": True}),
    ("POST", "/two", {"body": b"a=1", "ctype": URL, "length": 4,
                      "wrong": True}),
    ("POST", "/two", {"body": b"a=1", "ctype": URL, "length": -1,
                      "wrong": True}),
    ("POST", "/two", {"body": b"a=\xff", "ctype": URL, "wrong": True}),
    ("POST", "/nope", {"body": b"a=1", "ctype": URL}),
    ("POST", "/two", {}),
    ("GET", "/", {}),
]


def history(count, chosen, registering):
    """Sequences of requests."""

    def body(ch):
        world = World()
        try:
            world.add("GET", "one", "wide")
            world.add("POST", "two", "plain")
            world.add("GET", "bad", "raise")
            world.add("GET", "fail", "fail-lines")
            late = False
            for _ in range(count):
                if registering and not late and ch.flag():
                    late = True
                    world.add("POST", "late", "plain", "late")
                    world.add("GET", "one", "lines", "replaced")
                method, path, how = ch.pick(chosen)
                how = dict(how)
                if how.pop("wrong", False):
                    world.calls.clear()
                    ans = only(
                        world.service.talk(message(method, path, **how)).out
                    )
                    ch.check(400 <= ans.status < 600, f"{how}: {ans.status}")
                    ch.equal(world.calls, [], "handlers run")
                else:
                    world.request(ch, method, path, **how)
                world.index(ch)
                world.request(
                    ch, "POST", "/two", body=b"c=3", ctype=URL,
                    fields={"c": ["3"]},
                )
            ch.state(sorted(world.listed))
            ch.outcome((late, len(world.listed)))
        finally:
            world.service.close()

    return body


def connection(ch):
    """Several requests sent over one connection."""
    world = World()
    try:
        world.add("GET", "one", "wide")
        world.add("POST", "two", "plain")
        world.add("GET", "bad", "raise")
        picked = [ch.pick(REQUESTS[:9]) for _ in range(2)]
        version = ch.pick(["1.0", "1.1"])
        keep = ch.pick([(), ("Connection: keep-alive",)])
        data = b""
        for method, path, how in picked:
            how = {k: v for k, v in how.items() if k not in ("fields", "query")}
            data += message(
                method, path, version=version, headers=keep, **how
            )
        sock = world.service.talk(data, ch.pick([1 << 20, 1, 7]))
        rest, count = sock.out, 0
        while rest:
            ch.check(count < 2, f"more responses than requests: {rest[:60]!r}")
            method, path, _ = picked[count]
            ans = Answer(rest, method == "HEAD")
            rest = ans.rest
            count += 1
            good = (method, path) in (
                ("GET", "/one"), ("HEAD", "/one"), ("POST", "/two"),
            )
            ch.equal(ans.status == 200, good, f"{method} {path}: {ans.status}")
        ch.check(count >= 1, "no answer")
        ch.equal(
            len([c for c in world.calls if c]),
            sum(1 for m, p, _ in picked[:count] if p in ("/one", "/bad")
                and m != "POST" or (m, p) == ("POST", "/two")),
            "handlers run",
        )
        ch.check(sock.closed >= 1, "connection left open")
        ch.outcome((count, version))
    finally:
        world.service.close()


NAMES = ["a", "b c", "\u00e9", "A"]
VALUES = ["", "1", "x y+z", "a=b&c;d", "%41", "\u20ac"]


def quoted(text, plus):
    """Percent-encoding."""
    out = ""
    for byte in text.encode():
        char = chr(byte)
        if char.isalnum() and byte < 128 or char in "-_.~":
            out += char
        elif char == " " and plus:
            out += "+"
        else:
            out += f"%{byte:02X}"
    return out


def fields(count, names, values, both):
    """Every set of fields, as a query and as a body."""

    def body(ch):
        world = World()
        try:
            world.add("GET", "x", "plain")
            world.add("POST", "x", "plain")
            sent, want = {"query": [], "body": []}, {}
            where = ch.pick(["query", "body", "head"])
            plus = ch.flag()
            for num in range(count):
                name = ch.pick(names)
                place = "body" if where == "body" else "query"
                if both and where == "body" and num == 0:
                    place, name = "query", "q" + name
                value = ch.pick(values)
                want.setdefault(name, []).append(value)
                sent[place].append(
                    f"{quoted(name, plus)}={quoted(value, plus)}"
                )
            if where == "query" and ch.flag():
                sent["query"].append("flag")
                want["flag"] = [""]
            query = "&".join(sent["query"])
            query = "?" + query if query else ""
            if where == "body":
                world.request(
                    ch, "POST", "/x", query=query, fields=want,
                    body="&".join(sent["body"]).encode(),
                    ctype=ch.pick([URL, URL + "; charset=utf-8",
                                   "Application/X-WWW-Form-URLencoded"]),
                )
            else:
                world.request(
                    ch, "GET" if where == "query" else "HEAD", "/x",
                    query=query, fields=want,
                )
            ch.outcome(sorted(want))
        finally:
            world.service.close()

    return body


def check_quoting():
    for text in NAMES + VALUES:
        for plus in (False, True):
            assert unquote_plus(quoted(text, plus)) == text


check_quoting()

PART_NAMES = ["a", "b;c", "d=e", "f:g", "h i", "\u00e9", "'q'"]
FILES = [None, "x.txt", "a;b=c: d.txt", ""]
TEXTS = [
    b"", b"value", b"one\r\ntwo", b"\r\n", b"\r\n\r\n", b"a: b\r\n\r\nc",
    b"x--xyz", b"--xy\r\n--", b"--xyzz\r\n", b"line\n--xyz\nline", b"\xff\x00",
    "\u20ac".encode(), b"Content-Disposition: form-data; name=\"z\"\r\n\r\nw",
    b"tail\r\n",
]
BOUNDARIES = [
    ("xyz", "boundary=xyz"), ("xyz", 'boundary="xyz"'),
    ("xyz", "charset=utf-8; boundary=xyz"), ("xyz", "Boundary=xyz;"),
    ("x=y:z", 'boundary="x=y:z"'), ("a.b+c", "boundary=a.b+c"),
    ("----W(1)", 'boundary="----W(1)"'),
]


def encoded(parts, boundary, preamble=b"", epilogue=b"\r\n", extra=False,
            pad=b""):
    """A multipart body."""
    out = preamble
    mark = b"--" + boundary.encode()
    for num, (name, filename, text) in enumerate(parts):
        out += (b"\r\n" if num or preamble else b"") + mark + pad + b"\r\n"
        if extra:
            out += b"Content-Type: text/plain; url=http://x:1/\r\n"
        out += f'Content-Disposition: form-data; name="{name}"'.encode()
        if filename is not None:
            out += f'; filename="{filename}"'.encode()
        out += b"\r\n\r\n" + text
    out += (b"\r\n" if parts or preamble else b"") + mark + b"--" + epilogue
    return out


def judge_parts(ch, got, parts, extra):
    ch.equal(len(got), len(parts), "parts")
    for part, (name, filename, text) in zip(got, parts):
        shown = part["headers"].get("content-disposition")
        want = {"type": "form-data", "name": name}
        if filename is not None:
            want["filename"] = filename
        ch.equal(shown, want, "disposition of a part")
        if extra:
            ch.equal(
                part["headers"].get("content-type"),
                "text/plain; url=http://x:1/", "type of a part",
            )
        lines = "\r\n".join(part["body"]).encode("utf-8", "surrogateescape")
        ch.equal(lines, text + b"\r\n", "content of a part")


def forms(count, names, files, texts, styles):
    """Every form of so many parts."""

    def body(ch):
        world = World()
        try:
            world.add("POST", "x", "plain")
            boundary, param = ch.pick(BOUNDARIES[:styles])
            style = ch.choose(5)
            parts = [
                (ch.pick(names), ch.pick(files), ch.pick(texts))
                for _ in range(count)
            ]
            if boundary != "xyz":
                parts = [
                    (n, f, t.replace(b"--xyz", b"--" + boundary.encode() + b"x")
                     ) for n, f, t in parts
                ]
            raw = encoded(
                parts, boundary,
                preamble=[b"", b"", b"ignore this", b"", b"a: b\r\n\r\nc"][style],
                epilogue=[b"\r\n", b"", b"\r\nignored\r\n--" + boundary.encode() +
                          b"\r\nContent-Disposition: form-data; name=\"n\""
                          b"\r\n\r\nno", b"  \r\n", b"\r\n"][style],
                extra=style in (1, 2), pad=b" \t" if style == 3 else b"",
            )
            kind = "Multipart/Form-Data; " if style == 4 else (
                "multipart/form-data;" if style == 3 else "multipart/form-data; "
            )
            world.calls.clear()
            ans = only(world.service.talk(
                message("POST", "/x", body=raw, ctype=kind + param)
            ).out)
            ch.equal(ans.status, 200, "status")
            ch.equal(len(world.calls), 1, "handlers run")
            data = world.calls[0][4]
            ch.equal(sorted(data), ["parts"], "parameters")
            judge_parts(ch, data["parts"], parts, style in (1, 2))
            ch.outcome((style, len(parts)))
        finally:
            world.service.close()

    return body


def malformed(ch):
    """Bodies that are cut anywhere, of any declared length, are refused or
    delivered as they are; the service keeps working."""
    world = World()
    try:
        world.add("POST", "x", "plain")
        form = ch.flag()
        body = encoded(
            [("a", None, b"1"), ("b", "f", b"2")], "xyz"
        ) if form else b"a=1&b=2"
        ctype = FORM if form else URL
        what = ch.pick(["cut", "length", "bytes", "type", "head"])
        good = False
        if what == "cut":
            cut = ch.choose(len(body))
            raw = message("POST", "/x", body[:cut], ctype, len(body))
        elif what == "length":
            length = ch.pick(["", "abc", "-1", "-0x1", "1e3", "9" * 20, "1,1"])
            raw = message("POST", "/x", body, ctype, length)
            if length == "9" * 20:
                raw = None  # memory is not the point
        elif what == "bytes":
            raw = message("POST", "/x", b"a=\xff\xfe" + body, URL)
        elif what == "head":
            full = message("POST", "/x", body, ctype)
            cut = ch.choose(full.index(b"\r\n\r\n"))
            raw = full[:cut]
        else:
            good = None
            ctype = ch.pick(["", "multipart", "multipart/form-data", "/", ";",
                             "multipart/form-data; boundary=",
                             "multipart/form-data; boundary=other",
                             "text/plain", "a/b/c", 'x/y; z="'])
            raw = message("POST", "/x", body, ctype)
        if raw is not None:
            sock = world.service.talk(raw, ch.pick([1 << 20, 1]))
            if what == "head":
                # not a request: nothing has to be answered
                if sock.out:
                    Answer(sock.out if b"\r\n\r\n" in sock.out[:20000]
                           else b"HTTP/1.0 400 x\r\nContent-Length: 0\r\n\r\n")
                if world.calls:
                    ch.equal(
                        [c[4] for c in world.calls], [{}], "parameters"
                    )
            else:
                ans = only(sock.out)
                if good is None:
                    ch.check(
                        ans.status == 200 or 400 <= ans.status < 600,
                        f"status {ans.status}",
                    )
                    ch.equal(sock.raw.pos, len(raw), "bytes read")
                else:
                    ch.check(
                        400 <= ans.status < 600, f"{raw!r}: {ans.status}"
                    )
                    ch.equal(world.calls, [], f"{raw!r}: handlers run")
            world.calls.clear()
        world.request(ch, "POST", "/x", body=b"c=3", ctype=URL,
                      fields={"c": ["3"]})
        world.index(ch)
        ch.outcome((what, form))
    finally:
        world.service.close()


def unused(ch):
    """Everything a client sends is read, even if nobody wants it."""
    world = World()
    try:
        world.add("POST", "x", "plain")
        size = ch.pick([1, 100, 70000])
        path = ch.pick(["/x", "/nope", "/"])
        ctype = ch.pick([None, "text/plain", URL, FORM, "nonsense"])
        raw = message("POST", path, b"v" * size, ctype)
        sock = world.service.talk(raw)
        ans = only(sock.out)
        ch.equal(ans.status == 200, path == "/x", f"{path}: {ans.status}")
        ch.equal(sock.raw.pos, len(raw), "bytes read")
        ch.outcome((path, ctype))
    finally:
        world.service.close()


def registering(ch):
    """However a handler is registered, it can be asked."""
    world = World()
    try:
        path = ch.pick(["x", "X/Yz", "/x", "a-b_c.d~1", "a/b/c", "1"])
        description = ch.pick(
            ["about", "", "two\nlines", "h\u00e9", "\u20ac \u2014", "x\r\nY: z"]
        )
        more = {}
        if ch.flag():
            more["data"] = ch.pick(
                [{"Other": "value"}, {"Number": 7}, {"Odd": "a\r\nb: c"},
                 {"Wide": "\u20ac"}, {}]
            )
        if ch.flag():
            more["response_type"] = "text/html"
        world.add("GET", path, "wide", description, **more)
        world.add("POST", path, "plain", description, **more)
        again = ch.flag()
        if again:
            world.add("GET", path.upper(), "lines", "other")
        world.index(ch)
        for method in ("GET", "HEAD", "POST"):
            for form in (path, path.lower(), path.upper()):
                world.request(ch, method, "/" + form.lstrip("/"))
        world.index(ch)
        ch.outcome((path, again))
    finally:
        world.service.close()


def no_mapper(ch):
    """A service without a mapper refuses every request."""
    service = Service()
    try:
        del service.daemon.server.mapper
        method = ch.pick(["GET", "HEAD", "POST"])
        path = ch.pick(["/", "/x", "/?a=1"])
        ans = only(
            service.talk(message(method, path)).out, method == "HEAD"
        )
        ch.equal(ans.status, 501, "status")
        ch.outcome(method)
    finally:
        service.close()


# -------------------------------------------------------- the server's own


class Owner:
    """What register_http_handlers needs of a server."""

    def __init__(self, service):
        self.stops = 0
        self.add_handler = service.daemon.add_handler

    def stop_all(self):
        self.stops += 1
        return True


def asks(ident):
    """(method, path, how, verdict) of requests to a telemetry server."""
    good, bad = str(ident), str(ident + 1)
    out = [("GET", "/id", {}, "id"), ("HEAD", "/id", {}, "id"),
           ("GET", "/types", {}, "types"),
           ("GET", "/types?indent", {}, "types"),
           ("GET", "/types?indent=4", {}, "types"),
           ("GET", "/registries", {}, "registries"),
           ("GET", "/registries?indent=", {}, "registries")]
    for value, verdict in (
        (good, "stopped"), (bad, "refused"), (str(ident - 1), "refused"),
        ("0", "refused"), ("-" + good, "refused"), ("", "refused"),
        ("x", "refused"), ("1e3", "refused"), ("%E2%82%AC", "refused"),
        (bad + "&app_id=" + good, "refused"),
    ):
        out.append(("POST", "/shutdown", {
            "body": f"app_id={value}".encode(), "ctype": URL}, verdict))
        out.append(("POST", f"/shutdown?app_id={value}", {}, verdict))
    out.append(("POST", "/shutdown", {}, "refused"))
    out.append(("GET", f"/shutdown?app_id={good}", {}, "refused"))
    out.append(("HEAD", f"/shutdown?app_id={good}", {}, "refused"))
    for query, verdict in (
        ("", "refused"), ("?command=", "refused"), ("?command=nope", "refused"),
        ("?command=a%0d%0ab:%20c", "refused"), ("?command=%E2%82%AC", "refused"),
        ("?command=help", "help"), ("?command=help&indent=2", "help"),
        ("?command=echo&x=1", ("echo", {"x": "1"})),
        ("?command=echo&x=%E2%82%AC&y=", ("echo", {"x": "\u20ac", "y": ""})),
        ("?command=echo&x=1&x=2&command=boom", ("echo", {"x": "1"})),
        ("?command=boom", "refused"), ("?command=echo&data=5", "any"),
        ("?data=5", "refused"),
    ):
        out.append(("GET", "/command" + query, {}, verdict))
        if query:
            out.append(("POST", "/command", {
                "body": query[1:].encode(), "ctype": URL}, verdict))
    form = encoded([("command", None, b"help")], "xyz")
    out.append(("POST", "/command", {"body": form, "ctype": FORM}, "refused"))
    out.append(("POST", "/command?command=help",
                {"body": b"--xyz--", "ctype": FORM}, "help"))
    return out


def server_requests(depth):
    """Requests to the handlers of a telemetry server."""

    def body(ch):
        sched.watch({})
        service = Service()

        def main():
            telem = TelemetryDaemon(
                "telemetry", 1500, 0.1, TimeKeeper("time", 0.05), 0.25,
                app_id_basis=0.5,
            )
            cmd = CommandQueueDaemon("command", telem)
            got = []

            def echo(data):
                got.append(dict(data))
                return True, json.dumps(data)

            def boom(_):
                raise KeyError("boom")

            cmd.register_consumer("echo", echo)
            cmd.register_consumer("boom", boom)
            owner = Owner(service)
            register_http_handlers(owner, telem, cmd)
            assert cmd.start()
            pool = asks(telem.app_id.get())
            for _ in range(depth):
                method, path, how, verdict = ch.pick(pool)
                stops = owner.stops
                got.clear()
                ans = only(
                    service.talk(message(method, path, **how)).out,
                    method == "HEAD",
                )
                what = f"{method} {path} {how}"
                text = ans.body.decode()
                ch.equal(
                    owner.stops - stops, int(verdict == "stopped"),
                    f"{what}: shutdowns",
                )
                if verdict == "any":
                    continue
                ch.equal(
                    ans.status == 200, verdict != "refused",
                    f"{what}: {ans.status}",
                )
                if verdict == "id" and method == "GET":
                    ch.equal(text, str(telem.app_id.get()), what)
                elif verdict == "types":
                    ch.equal(
                        json.loads(text),
                        json.loads(telem.type_registry.describe()), what,
                    )
                    ch.equal("\n" in text, "indent" in path, f"{what}: indent")
                elif verdict == "registries":
                    ch.equal(
                        json.loads(text),
                        {k: json.loads(r.describe())
                         for k, r in telem.registries.items()}, what,
                    )
                    ch.equal("\n" in text, "indent" in path, f"{what}: indent")
                elif verdict == "help":
                    ch.check("echo" in json.loads(text), what)
                elif isinstance(verdict, tuple):
                    ch.equal(got, [verdict[1]], f"{what}: data")
                    ch.equal(json.loads(text), verdict[1], what)
                ch.step()
            while not cmd.stop():
                sched.v_sleep(0.01)

        try:
            done = sched.run(ch, main, timers=False, preempt=False)
            for name, err in sched.errors(done):
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
        finally:
            service.close()
        ch.outcome(depth)

    return body


# ------------------------------------------------------------- schedules


def while_registering(asked):
    """Handlers are registered while requests are handled."""

    def body(ch):
        sched.watch({"vtelem.classes.http_request_mapper": sched.COARSE})
        world = World()
        world.add("GET", "old", "plain")
        outs = {}

        def client(tag, data):
            def func():
                outs[tag] = world.service.talk(data).out

            return func

        def register():
            world.add("GET", "new", "wide", "fresh")
            world.add("POST", "new", "plain", "fresh")

        def main():
            threads = [sched.spawn("register", register)]
            for path in asked:
                threads.append(
                    sched.spawn(path, client(path, message("GET", path)))
                )
            sched.join_all(threads)

        try:
            done = sched.run(ch, main, timers=False)
            for name, err in sched.errors(done):
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
            status = None
            if "/" in asked:
                ans = only(outs["/"])
                ch.equal(ans.status, 200, "status of the index")
                listed = json.loads(ans.body)
                paths = {i["path"]: i.get("description")
                         for i in listed["GET"]}
                ch.check(
                    paths.pop("/new", "fresh") == "fresh"
                    and paths == {"/": "request index", "/old": "about"},
                    f"index: {paths}",
                )
                ch.check(
                    [i["path"] for i in listed.get("POST", [])] in
                    ([], ["/new"]), f"index: {listed}",
                )
            if "/new" in asked:
                ans = only(outs["/new"])
                status = ans.status
                if status == 200:
                    ch.check(
                        ans.body == CONTENTS["wide"][1].encode(), "content"
                    )
                    ch.equal(
                        ans.headers.get("content-type"),
                        "application/json; charset=utf-8", "type",
                    )
                    ch.equal(
                        ans.headers.get("description"), "fresh", "description"
                    )
                else:
                    ch.equal(status, 404, "status")
            if "/old" in asked:
                ch.equal(only(outs["/old"]).status, 200, "status")
            world.index(ch)
            ch.outcome(status)
        finally:
            world.service.close()

    return body


# --------------------------------------------------------------- network


OPS = {
    "start": True, "stop": True, "restart": True, "get": 200, "post": 200,
    "big": 404, "idle": True, "garbage": True, "tls again": True,
}


def network(depth, pool, kinds):
    """Histories over the loopback interface."""

    def body(ch):
        kind = ch.pick(kinds)
        running = True
        ops = ["start"]
        for _ in range(depth):
            legal = [
                op for op in pool
                if (op != "tls again" or (kind == "tls" and not running))
                and (running or op in ("start", "tls again"))
                and not (running and op == "start")
            ]
            op = ch.pick(legal)
            ops.append(op)
            running = {"stop": False, "start": True}.get(op, running)
        if not running:
            ops.append("start")
        ops += ["get", "post", "stop", "close"]
        root = str(pathlib.Path(HttpDaemon.__init__.__code__.co_filename)
                   .resolve().parents[2])
        env = dict(os.environ, VTELEM_REPO=root)
        try:
            done = subprocess.run(
                [sys.executable, HELPER, kind] + ops, env=env, check=False,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
            )
        except subprocess.TimeoutExpired as exc:
            raise Violation(f"{kind} {ops} hangs") from exc
        try:
            got = json.loads(done.stdout.decode().strip().splitlines()[-1])
        except (ValueError, IndexError) as exc:
            raise Violation(
                f"{kind} {ops}: {done.stderr.decode()[-400:]}"
            ) from exc
        for op, result in zip(ops, got["results"]):
            if op in ("get", "post", "big"):
                ch.equal(
                    result[0] if isinstance(result, list) else result,
                    OPS[op], f"{kind} {ops}: {op}",
                )
                if op == "get":
                    ch.equal(json.loads(result[1]), {"a": ["1"]}, "content")
                if op == "post":
                    ch.equal(
                        json.loads(result[1])["a"], ["\u00e9"], "content"
                    )
            else:
                ch.equal(result, True, f"{kind} {ops}: {op}")
        ch.equal(
            got["calls"], sum(1 for op in ops if op in ("get", "post")),
            f"{kind} {ops}: handlers run",
        )
        ch.outcome((kind, tuple(ops)))

    return body


def scenarios(tier):
    deep = tier == "thorough"
    short = [REQUESTS[n] for n in (0, 1, 2, 4, 6, 7, 9, 13)]
    out = [
        Scenario("single", single(list(CONTENTS), ["1.1", "1.0"])),
        Scenario("history-2", history(2, REQUESTS, True)),
        Scenario("history-3", history(
            3, REQUESTS if deep else short, deep
        )),
        Scenario("connection", connection),
        Scenario("fields-1", fields(1, NAMES, VALUES, False)),
        Scenario("fields-2", fields(
            2, NAMES if deep else NAMES[:3], VALUES, False
        )),
        Scenario("fields-3", fields(
            3, NAMES[:3] if deep else ["a", "A"],
            VALUES if deep else ["", "1", "a=b&c;d"], True
        )),
        Scenario("forms-0", forms(0, [""], [None], [b""], 7)),
        Scenario("forms-1", forms(1, PART_NAMES, FILES, TEXTS, 7)),
        Scenario("forms-2", forms(
            2, PART_NAMES[:3] if deep else ["a", "d=e"], FILES[:2] if deep
            else [None], TEXTS, 7 if deep else 2
        )),
        Scenario("forms-3", forms(
            3, ["a"], [None, "a;b"] if deep else [None],
            TEXTS if deep else [b"", b"\r\n", b"x--xyz", b"--xyzz\r\n"],
            1
        )),
        Scenario("malformed", malformed),
        Scenario("unused", unused),
        Scenario("registering", registering),
        Scenario("no-mapper", no_mapper),
        Scenario("server-1", server_requests(1)),
        Scenario("server-2", server_requests(3 if deep else 2)),
        Scenario("index-registering", while_registering(["/"]),
                 3 if deep else 2),
        Scenario("asked-registering", while_registering(["/new"]),
                 3 if deep else 2),
        Scenario("both-registering", while_registering(["/", "/new"]),
                 2 if deep else 1),
        Scenario("network", network(
            4 if deep else 2,
            ["stop", "start", "get", "idle", "garbage", "big"]
            if not deep else list(OPS), ["tls", "plain"],
        )),
    ]
    return out
