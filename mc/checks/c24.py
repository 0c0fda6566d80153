"""C24: stream and client bookkeeping matches exactly the clients connected."""
import asyncio
import selectors
import socket

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
import websockets

from vtelem.channel.framer import build_dummy_frame
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.mtu import Host
from vtelem.stream.writer import QueueClientManager, default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.checks.util_net import (
    VirtualLoopSelector,
    open_fds,
    tcp_connect,
    tcp_take,
    udp_manager,
    udp_receiver,
    udp_take,
    virtual_servers,
)
from mc.explore import Prune, Scenario, Violation

virtual_servers()

ASSUMPTIONS = [
    "sequential histories to the stated depth; schedules of 2-4 threads up to "
    "the stated number of preemptions, switches at lock operations, waits and "
    "the stated instructions",
    "UDP and TCP clients are real sockets on the loopback interface (the TCP "
    "server waits in virtual time); websocket connections are stand-ins "
    "driven through the daemon's own connection handler",
    "resources are closed exactly once: observed through closers, descriptors "
    "and the telemetry counters",
]
OPS = {
    "vtelem.stream.writer": {"DELETE_SUBSCR", "STORE_SUBSCR", "CONTAINS_OP"},
    "vtelem.daemon.tcp_telemetry": sched.COARSE,
    "vtelem.classes.udp_client_manager": sched.COARSE,
}
WIDE = {"vtelem.stream.writer": sched.FINE}
LOCKS: dict = {}
FRAMES = []


def the_frames(count):
    while len(FRAMES) < count:
        frame = build_dummy_frame(40 + len(FRAMES), 0.5)
        data, size = frame.raw
        FRAMES.append((frame, ref.prefixed(bytes(data[:size]))))
    return FRAMES[:count]


def pump(writer, queue, frame):
    """Have the writer process one frame, to the end."""
    queue.put(frame)
    queue.put(None)
    writer.run()


def new_env():
    return TelemetryEnvironment(1500, app_id_basis=0.5, metrics_rate=1.0)


def clean_writer(ch, writer, what=""):
    """Nothing is left in any container of the writer."""
    for name, val in vars(writer).items():
        if isinstance(val, (dict, list, set)) and name.startswith(
            ("stream", "queues", "active", "client")
        ):
            ch.check(not val, f"{what}left in {name}: {val}")


# ------------------------------------------------------------- streams


class Mark:
    """A stream that knows its identity."""

    name = "mark"

    def __init__(self):
        self.data = b""
        self.closes = 0
        self.bad = False

    def write(self, data):
        if self.bad:
            raise OSError("bad")
        self.data += bytes(data)
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.closes += 1


def streams(depth):
    """Identifiers, for every history of adding, removing and failing."""

    def body(ch):
        env = new_env()
        writer, queue = default_writer("w", None, env)
        items = []  # [id, sink, live, expected closes]
        given = []
        nframes = 0
        for _ in range(depth):
            live = [i for i in items if i[2]]
            act = ch.pick(
                ["add", "frame", "remove", "again", "unknown", "fail",
                 "scoped", "sem", "end"]
            )
            if act == "end":
                break
            if act == "add":
                sink = Mark()
                sid = writer.add_stream(sink, sink.close)
                items.append([sid, sink, True, 0])
                given.append(sid)
            elif act == "again":
                gone = [i for i in items if not i[2]]
                if not gone:
                    raise Prune("nothing to add again")
                sink = gone[0][1]
                # the same sink under a new identifier
                if sink.bad:
                    sink.bad = False
                sid = writer.add_stream(sink, sink.close)
                old = gone[0]
                items.remove(old)
                items.append([sid, sink, True, old[3]])
                given.append(sid)
            elif act == "remove":
                if not items:
                    raise Prune("nothing to remove")
                item = ch.pick(items)
                ch.equal(writer.remove_stream(item[0]), item[2], "removed")
                item[3] += int(item[2])
                item[2] = False
            elif act == "unknown":
                ch.equal(
                    writer.remove_stream(max(given, default=-1) + 1),
                    False,
                    "removing an unknown stream",
                )
            elif act == "fail":
                if not live:
                    raise Prune("nothing to fail")
                ch.pick(live)[1].bad = True
            elif act == "scoped":
                sink = Mark()
                with writer.stream_added(sink, sink.close):
                    frame, data = the_frames(nframes + 1)[nframes]
                ch.equal(sink.closes, 1, "scoped stream closed")
            elif act == "sem":
                sink = Mark()
                sid, sem = writer.add_semaphore_stream(sink)
                given.append(sid)
                ch.check(not sem.acquire(False), "posted early")
                ch.equal(writer.remove_stream(sid), True, "removed")
                ch.check(sem.acquire(False), "not posted")
                ch.check(not sem.acquire(False), "posted twice")
            else:
                frame, data = the_frames(nframes + 1)[nframes]
                nframes += 1
                before = {id(i): i[1].data for i in items}
                pump(writer, queue, frame)
                for item in items:
                    want = before[id(item)]
                    if item[2]:
                        if item[1].bad:
                            item[2] = False
                            item[3] += 1
                        else:
                            want += data
                    ch.equal(item[1].data, want, f"stream {item[0]}")
            ch.equal(len(set(given)), len(given), f"identifiers {given}")
            for item in items:
                ch.equal(item[1].closes, item[3], "times closed")
            ch.equal(
                env.get_metric("w.stream_count"),
                sum(i[2] for i in items),
                "stream_count",
            )
            ch.state([(i[2], i[3], i[1].bad) for i in items])
        for item in items:
            ch.equal(writer.remove_stream(item[0]), item[2], "removed at last")
        clean_writer(ch, writer)
        ch.outcome((given, [(i[2], i[3]) for i in items]))

    return body


def queue_clients(depth):
    """Queue clients of two managers, for every history."""

    def body(ch):
        env = new_env()
        writer, queue = default_writer("w", None, env)
        mans = [QueueClientManager("a", writer), QueueClientManager("b", writer)]
        items = []  # [manager index, id, queue, live, expected]
        nframes = 0
        for _ in range(depth):
            act = ch.pick(["add", "remove", "close", "frame", "unknown", "end"])
            if act == "end":
                break
            if act == "add":
                num = ch.choose(2)
                addr = Host("h", len(items)) if ch.flag("named") else None
                qid, client = mans[num].add_client_queue(addr)
                ch.check(qid not in [i[1] for i in items], f"id {qid} twice")
                items.append([num, qid, client, True, []])
            elif act == "remove":
                if not items:
                    raise Prune("nothing to remove")
                item = ch.pick(items)
                inject = ch.flag("inject")
                ch.equal(
                    mans[item[0]].remove_client_queue(item[1], inject),
                    item[3],
                    "removed",
                )
                if item[3] and inject:
                    item[4].append(None)
                item[3] = False
            elif act == "unknown":
                ch.equal(
                    mans[0].remove_client_queue(99), False, "unknown queue"
                )
            elif act == "close":
                num = ch.choose(2)
                mine = [i for i in items if i[0] == num and i[3]]
                ch.equal(mans[num].close_clients(), len(mine), "closed")
                for item in mine:
                    item[3] = False
                    item[4].append(None)
            else:
                frame = the_frames(nframes + 1)[nframes][0]
                nframes += 1
                pump(writer, queue, frame)
                for item in items:
                    if item[3]:
                        item[4].append(frame)
            for item in items:
                got = list(item[2].queue)
                ch.check(
                    len(got) == len(item[4])
                    and all(a is b for a, b in zip(got, item[4])),
                    "elements of a client",
                )
            ch.equal(
                env.get_metric("w.queue_count"),
                sum(i[3] for i in items),
                "queue_count",
            )
            ch.state([(i[0], i[3], len(i[4])) for i in items])
        for num in (0, 1):
            left = sum(1 for i in items if i[0] == num and i[3])
            ch.equal(mans[num].close_clients(), left, "closed at last")
            clean_writer(ch, mans[num], "manager: ")
        clean_writer(ch, writer)
        ch.outcome([(i[0], i[1], len(i[4])) for i in items])

    return body


# ---------------------------------------------------------------- UDP


def udp_clients(depth):
    """UDP clients on real sockets, for every history."""

    def body(ch):
        fds = open_fds()
        writer, queue = default_writer("w")
        man = udp_manager(writer)
        held = []
        recvs, items = [], []  # item: [id, receiver, live, expected]
        mine = Mark()
        own = None
        nframes = closes = 0
        try:
            for _ in range(depth):
                act = ch.pick(
                    ["add", "frame", "remove", "unknown", "break", "all",
                     "stream", "end"]
                )
                if act == "end":
                    break
                if act == "add":
                    if len(items) >= 3:
                        raise Prune("enough clients")
                    sock = udp_receiver()
                    recvs.append(sock)
                    host = Host(*sock.getsockname())
                    if ch.flag("list"):
                        got = man.add_clients([host])
                        ch.equal(list(got), [host], "hosts")
                        sid, mtu = got[host]
                    else:
                        sid, mtu = man.add_client(host, True)
                        ch.check(0 < mtu <= 65535, f"mtu {mtu}")
                    ch.check(sid not in [i[0] for i in items], f"id {sid} twice")
                    name = man.client_name(sid)
                    ch.equal(name[0], "127.0.0.1", "client name")
                    udp_take(sock)
                    items.append([sid, sock, True, name])
                    # not closed merely because nobody refers to it
                    held.append(man.clients[sid])
                elif act == "remove":
                    if not items:
                        raise Prune("nothing to remove")
                    item = ch.pick(items)
                    man.remove_client(item[0])
                    item[2] = False
                elif act == "unknown":
                    man.remove_client(77)
                    if own is not None:
                        # a stream of somebody else is not a client
                        man.remove_client(own)
                elif act == "all":
                    man.remove_all()
                    for item in items:
                        item[2] = False
                elif act == "stream":
                    if own is not None:
                        mine.bad = True
                    else:
                        mine.bad = False
                        own = writer.add_stream(mine, mine.close)
                elif act == "break":
                    live = [i for i in items if i[2]]
                    if not live:
                        raise Prune("nothing to break")
                    item = ch.pick(live)
                    sock = item[1]
                    recvs.remove(sock)
                    sock.close()
                    # nobody listens: writing fails within two frames
                    for _ in range(2):
                        frame = the_frames(nframes + 1)[nframes][0]
                        nframes += 1
                        pump(writer, queue, frame)
                    if item[0] in man.clients:
                        # buffered: nothing is sent yet
                        man.remove_client(item[0])
                    item[2] = False
                    if own is not None and mine.bad:
                        own = None
                        closes += 1
                else:
                    frame = the_frames(nframes + 1)[nframes][0]
                    nframes += 1
                    pump(writer, queue, frame)
                    if own is not None and mine.bad:
                        own = None
                        closes += 1
                want = {i[0] for i in items if i[2]}
                ch.equal(set(man.clients), want, "clients")
                ch.equal(
                    set(writer.streams),
                    want | ({own} if own is not None else set()),
                    "streams",
                )
                for item in items:
                    if item[2]:
                        ch.equal(man.client_name(item[0]), item[3], "name")
                ch.equal(
                    open_fds() - fds,
                    len(recvs) + len(want),
                    "open descriptors of clients",
                )
                ch.equal(mine.closes, closes, "times closed")
                ch.state([(i[2],) for i in items] + [own is None, mine.bad])
            man.remove_all()
            if own is not None:
                writer.remove_stream(own)
            clean_writer(ch, man, "manager: ")
            clean_writer(ch, writer)
        finally:
            for sock in recvs:
                sock.close()
            man.remove_all()
        ch.equal(open_fds(), fds, "open descriptors")
        ch.outcome([(i[0], i[2]) for i in items] + [nframes])

    return body


# ---------------------------------------------------------------- TCP


class Server:
    """A TCP telemetry daemon under the scheduler, with real connections."""

    def __init__(self, ch):
        self.ch = ch
        self.env = new_env()
        self.writer, self.queue = default_writer("w", None, self.env)
        self.daemon = TcpTelemetryDaemon(
            "tcp", self.writer, self.env, Host("127.0.0.1", 0)
        )
        self.socks = []

    def start(self):
        if not self.daemon.start():
            raise Violation("the daemon does not start")
        while self.daemon.get_state().name != "RUNNING":
            sched.v_sleep(0.01)

    def connect(self):
        sock = tcp_connect(self.daemon.address)
        self.socks.append(sock)
        return sock

    def served(self, count):
        """Wait until this many clients are attached."""
        for _ in range(200):
            if len(self.writer.streams) == count:
                return
            sched.v_sleep(0.05)
        raise Violation(
            f"{len(self.writer.streams)} clients served, not {count}"
        )

    def frame(self, num):
        pump(self.writer, self.queue, the_frames(num + 1)[num][0])

    def settled(self):
        """Everything is as it is without clients."""
        ch = self.ch
        clean_writer(ch, self.writer)
        clean_writer(ch, self.daemon, "daemon: ")
        ch.equal(self.env.get_metric("tcp.clients"), 0, "clients")
        ch.equal(self.env.get_metric("w.stream_count"), 0, "stream_count")

    def close(self):
        self.daemon.server.server_close()
        for sock in self.socks:
            sock.close()


def tcp(ops, plan, timers=False):
    """plan(server, ch, box) returns tasks to run with the daemon running."""

    def body(ch):
        sched.watch(ops)
        fds = open_fds()
        server = Server(ch)
        box = {}

        def main():
            with sched.quiet():
                server.start()
                tasks, judge = plan(server, ch, box)
            threads = [sched.spawn(n, f) for n, f in tasks]
            sched.join_all(threads)
            judge()
            # let handlers and the server end
            if server.daemon.get_state().name == "RUNNING":
                ch.equal(server.daemon.stop(), True, "stop")
            for task in list(sched.CURRENT.tasks):
                if task.thread is not None and task is not sched.me():
                    sched.CURRENT.wait(lambda t=task: t.done, "end", 100.0)
                    ch.check(task.done, f"{task.name} never ends")

        try:
            done = sched.run(ch, main, timers=timers)
            for name, err in sched.errors(done):
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
            server.settled()
        finally:
            server.close()
        ch.equal(open_fds(), fds, "open descriptors")

    return body


def come_and_go(how):
    """A client connects, gets frames and leaves; another stays."""

    def plan(server, ch, box):
        stay = server.connect()
        server.served(1)

        def client():
            sock = server.connect()
            server.served(2)
            server.frame(0)
            if how == "reset":
                sock.close()
            else:
                box["got"] = tcp_take(sock)
                sock.shutdown(socket.SHUT_RDWR)
                sock.close()
            server.frame(1)
            server.frame(2)
            server.served(1)

        def judge():
            want = b"".join(d for _, d in the_frames(3))
            ch.equal(tcp_take(stay)[0], want, "the client that stays")
            for _ in range(100):
                if server.env.get_metric("tcp.clients") == 1:
                    break
                sched.v_sleep(0.05)
            ch.equal(server.env.get_metric("tcp.clients"), 1, "clients")
            for name, val in vars(server.daemon).items():
                if isinstance(val, (dict, list, set)) and "client" in name:
                    ch.check(len(val) <= 1, f"left in {name}: {val}")
            if how != "reset":
                ch.equal(box["got"][0], the_frames(1)[0][1], "the other")
            ch.outcome(how)

        return [("client", client)], judge

    return plan


def stop_under(clients, connect):
    """The daemon stops while clients are connected or connecting."""

    def plan(server, ch, box):
        for num in range(clients):
            server.connect()
            server.served(num + 1)
        if connect:
            server.connect()

        def stopper():
            box["stop"] = server.daemon.stop()

        def frames():
            server.frame(0)

        def judge():
            ch.equal(box["stop"], True, "stop")
            ch.outcome([tcp_take(s) for s in server.socks])

        return [("stopper", stopper), ("frames", frames)], judge

    return plan


def restart(server, ch, box):
    """Clients of a restarted daemon are served anew."""
    del box
    server.connect()
    server.served(1)

    def again():
        ch.equal(server.daemon.restart(), True, "restart")
        while server.daemon.get_state().name != "RUNNING":
            sched.v_sleep(0.01)
        server.served(0)
        sock = server.connect()
        server.served(1)
        server.frame(0)
        ch.equal(tcp_take(sock)[0], the_frames(1)[0][1], "new client")
        ch.check(tcp_take(server.socks[0])[1], "old client not disconnected")

    def judge():
        ch.outcome("ok")

    return [("again", again)], judge


# ---------------------------------------------------------- websockets


class FakeSocket:
    """A websocket connection; fails at the given frame."""

    def __init__(self, num, fail_at, how):
        self.local_address = ("l", 1)
        self.remote_address = ("r", num)
        self.sent = []
        self.fail_at, self.how = fail_at, how
        self.closed_count = 0
        self.gone = False

    @property
    def closed(self):
        return self.gone or self.closed_count > 0

    @property
    def open(self):
        return not self.closed

    async def send(self, data):
        await asyncio.sleep(0)
        if self.closed:
            raise websockets.exceptions.ConnectionClosedOK(None, None)
        if self.fail_at == len(self.sent):
            if self.how == "cancel":
                raise asyncio.CancelledError()
            if self.how == "protocol":
                raise websockets.exceptions.InvalidState("bad state")
            raise websockets.exceptions.ConnectionClosedError(None, None)
        self.sent.append(bytes(data))

    async def close(self, *_, **__):
        self.closed_count += 1


class NoServer:
    """What websockets.serve gives."""

    sockets = ()

    def __init__(self, handler):
        self.handler = handler

    def __await__(self):
        return self
        yield  # pylint: disable=unreachable


def capture_handler(daemon):
    """The connection handler the daemon would serve with."""
    box = []

    async def serve(handler, *_, **__):
        box.append(handler)
        return NoServer(handler)

    real = websockets.serve
    websockets.serve = serve
    try:
        daemon.function["run_init"]()
    finally:
        websockets.serve = real
    return box[0]


def ws_clients(count):
    """Websocket clients: served, idle, failing, closed; nothing is left."""

    def play(ch):
        sched.watch(LOCKS)
        env = new_env()
        writer, queue = default_writer("w", None, env)
        daemon = WebsocketTelemetryDaemon(
            "ws", writer, Host("127.0.0.1", 1), env
        )
        handler = capture_handler(daemon)
        socks, fails = [], []
        for num in range(count):
            fail_at = ch.pick([None, 0, 1])
            how = ch.pick(["closed", "protocol", "cancel"]) if (
                fail_at is not None
            ) else None
            socks.append(FakeSocket(num, fail_at, how))
            fails.append(fail_at)
        idle = ch.pick([0.0, 5.0])
        nframes = ch.pick([0, 1, 2])
        ending = ch.pick(["close", "gone", "both"])

        def serve():
            async def every():
                return await asyncio.gather(
                    *(handler(s, "/") for s in socks), return_exceptions=True
                )

            for res in daemon.eloop.run_until_complete(every()):
                if isinstance(res, Exception):
                    raise Violation(f"a handler raised {res!r}")

        def main():
            # every client is connected before the frames are written
            thread = sched.spawn("loop", serve)
            for _ in range(500):
                if len(writer.queues) == count:
                    break
                sched.v_sleep(0.01)
            ch.equal(len(writer.queues), count, "clients served at once")
            # a client is served as long as it is there, frames or not
            sched.v_sleep(idle)
            ch.equal(len(writer.queues), count, "clients served after a pause")
            for frame, _ in the_frames(nframes):
                pump(writer, queue, frame)
            sched.v_sleep(1.0)
            alive = [f is None or f >= nframes for f in fails]
            ch.equal(len(writer.queues), sum(alive), "clients left")
            if ending != "close":
                for sock in socks:
                    sock.gone = True
            if ending != "gone":
                sched.v_sleep(0.0 if ending == "both" else 1.0)
                closed = daemon.close_clients()
                if ending == "close":
                    ch.equal(closed, sum(alive), "clients closed")
            sched.join_all([thread])

        res = sched.run(ch, main, timers=False)
        for name, err in sched.errors(res):
            if isinstance(err, Violation):
                raise err
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        want = [d for _, d in the_frames(nframes)]
        for sock, fail_at in zip(socks, fails):
            ch.equal(
                sock.sent, want if fail_at is None else want[:fail_at], "frames"
            )
            ch.equal(sock.closed_count, 1, "times the connection was closed")
        if ending == "gone":
            # clients which left by themselves leave nothing behind
            clean_writer(ch, daemon, "daemon: ")
        ch.equal(daemon.close_clients(), 0, "clients left")
        clean_writer(ch, writer)
        clean_writer(ch, daemon, "daemon: ")
        ch.equal(env.get_metric("w.queue_count"), 0, "queue_count")
        ch.outcome((nframes, ending, fails))
        daemon.eloop.close()

    def body(ch):
        real = selectors.DefaultSelector
        selectors.DefaultSelector = VirtualLoopSelector
        try:
            play(ch)
        finally:
            selectors.DefaultSelector = real

    return body


def id_race(ops, tasks):
    """Identifiers are unique and refer to their sink under any schedule."""

    def body(ch):
        sched.watch(ops)
        writer, queue = default_writer("w")
        man = QueueClientManager("m", writer)
        got = {}

        def stream(key):
            sink = Mark()
            sid = writer.add_stream(sink, sink.close)
            got[key] = ("s", sid, sink)

        def client(key):
            qid, queue_ = man.add_client_queue()
            got[key] = ("q", qid, queue_)

        def cycle(key):
            sink = Mark()
            sid = writer.add_stream(sink, sink.close)
            got[key] = ("gone", sid, sink)
            got[key + "r"] = ("flag", writer.remove_stream(sid))

        acts = {"stream": stream, "client": client, "cycle": cycle}

        def main():
            threads = [
                sched.spawn(f"t{n}", lambda k=f"t{n}", a=a: acts[a](k))
                for n, a in enumerate(tasks)
            ]
            sched.join_all(threads)

        res = sched.run(ch, main, timers=False)
        for name, err in sched.errors(res):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        sids = [v[1] for v in got.values() if v[0] in ("s", "gone")]
        qids = [v[1] for v in got.values() if v[0] == "q"]
        ch.check(len(set(sids)) == len(sids), f"stream ids {sids}")
        ch.check(len(set(qids)) == len(qids), f"queue ids {qids}")
        frame, data = the_frames(1)[0]
        pump(writer, queue, frame)
        for val in got.values():
            if val[0] == "s":
                ch.equal(val[2].data, data, "frame of a stream")
                ch.equal(writer.remove_stream(val[1]), True, "remove")
                ch.equal(val[2].closes, 1, "closed")
            elif val[0] == "gone":
                ch.equal(val[2].data, b"", "frame of a removed stream")
                ch.equal(val[2].closes, 1, "closed")
            elif val[0] == "q":
                ch.check(list(val[2].queue) == [frame], "frame of a client")
            else:
                ch.equal(val[1], True, "removed")
        ch.equal(man.close_clients(), len(qids), "clients")
        clean_writer(ch, writer)
        clean_writer(ch, man)
        ch.outcome((sids, qids))

    return body


def same_twice(ops, how):
    """Two threads remove the same client: exactly one succeeds."""

    def body(ch):
        sched.watch(ops)
        fds = open_fds()
        writer, queue = default_writer("w")
        qman = QueueClientManager("m", writer)
        man = udp_manager(writer)
        sink = Mark()
        sid = writer.add_stream(sink, sink.close)
        qid, client = qman.add_client_queue()
        recv = udp_receiver()
        uid = man.add_client(Host(*recv.getsockname()), True)[0]
        res = []
        acts = {
            "stream": lambda: res.append(writer.remove_stream(sid)),
            "client": lambda: res.append(qman.remove_client_queue(qid)),
            "close": lambda: res.append(qman.close_clients() == 1),
            "udp": lambda: man.remove_client(uid),
            "udps": lambda: man.remove_all(),
        }

        def main():
            threads = [
                sched.spawn(f"t{n}", acts[a]) for n, a in enumerate(how)
            ]
            sched.join_all(threads)

        try:
            done = sched.run(ch, main, timers=False)
            for name, err in sched.errors(done):
                raise Violation(f"{name} raised {type(err).__name__}: {err}")
            if how[0] == "stream":
                ch.equal(sorted(res), [False, True], "removals")
                ch.equal(sink.closes, 1, "closed")
            elif how[0] == "client":
                ch.equal(sorted(res), [False, True], "removals")
                ch.check(list(client.queue) == [None], "end markers")
            else:
                ch.equal(len(man.clients), 0, "clients")
            man.remove_all()
            ch.outcome(res)
        finally:
            recv.close()
        ch.equal(open_fds(), fds, "open descriptors")
        del queue

    return body


def scenarios(tier):
    deep = tier == "thorough"
    more = 2 if deep else 1
    out = [
        Scenario("streams", streams(6 if deep else 5)),
        Scenario("queue-clients", queue_clients(5 if deep else 4)),
        Scenario("udp-clients", udp_clients(6 if deep else 4)),
        Scenario("ids-3", id_race(WIDE, ["stream", "stream", "cycle"]), more),
        Scenario("ids-clients", id_race(WIDE, ["client", "client", "cycle"]), more),
        Scenario("twice-stream", same_twice(WIDE, ["stream", "stream"]), 2),
        Scenario("twice-client", same_twice(WIDE, ["client", "client"]), 2),
        Scenario("twice-close", same_twice(WIDE, ["client", "close"]), 2),
        Scenario("twice-udp", same_twice(OPS, ["udp", "udp"]), 2),
        Scenario("twice-udps", same_twice(OPS, ["udp", "udps"]), 2),
        Scenario("ws-1", ws_clients(1), 1),
        Scenario("ws-2", ws_clients(2), 0 if not deep else 1),
        Scenario("tcp-reset", tcp(OPS, come_and_go("reset")), more),
        Scenario("tcp-leave", tcp(OPS, come_and_go("leave")), more),
        Scenario("tcp-stop-0", tcp(OPS, stop_under(0, True)), more),
        Scenario("tcp-stop-1", tcp(OPS, stop_under(1, False)), more),
        Scenario("tcp-stop-2", tcp(OPS, stop_under(1, True)), more),
        Scenario("tcp-restart", tcp(OPS, restart), more),
    ]
    return out
