"""C14: stream writers deliver every frame to every live sink, in order."""
from io import BytesIO

from mc import sched

sched.install()

# pylint: disable=wrong-import-position
from vtelem.mtu import Host
from vtelem.stream.writer import QueueClientManager, default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from mc import ref
from mc.checks.util_net import udp_manager, udp_receiver, udp_take
from mc.explore import Prune, Scenario, Violation

ASSUMPTIONS = [
    "sinks are stand-ins which accept, partly accept, refuse (OSError, "
    "ValueError, no progress) or fail when flushed at a chosen call; UDP "
    "clients are real sockets on the loopback interface",
    "a frame in flight may still be written to a sink which is detached by "
    "another thread at that moment; whether a failing write counts is open",
    "a queue client that does not consume holds the writer up until it is "
    "removed (documented back-pressure)",
    "schedules: 2-3 threads, up to the stated number of preemptions, switches "
    "at lock operations, sink calls and the stated instructions",
]
WRITER = {
    "vtelem.stream.writer": sched.COARSE,
    "vtelem.classes.udp_client_manager": sched.COARSE,
}
LIGHT = {"vtelem.stream.writer": {"DELETE_SUBSCR", "STORE_SUBSCR", "FOR_ITER"}}


def frames(count):
    """Small, distinct frames; [(frame, bytes on a stream)]."""
    out = []
    for num in range(count):
        frame = BLANK(num)
        data, size = frame.raw
        out.append((frame, ref.prefixed(bytes(data[:size]))))
    return out


FRAMES = []


def BLANK(num):
    """A frame with one element."""
    from vtelem.channel.framer import build_dummy_frame

    return build_dummy_frame(40 + num, 0.5)


def the_frames(count):
    while len(FRAMES) < count:
        frame = BLANK(len(FRAMES))
        data, size = frame.raw
        FRAMES.append((frame, ref.prefixed(bytes(data[:size]))))
    return FRAMES[:count]


class Sink:
    """A stream which misbehaves as told.

    kind: ok | short | oserror:N | valueerror:N | nothing:N | none:N | flush:N
    | partial:N - at the N-th frame (from 0)."""

    name = "sink"

    def __init__(self, kind="ok", log=None):
        self.kind, _, num = kind.partition(":")
        self.fail_at = int(num or -1)
        self.data = b""
        self.frame_starts = 0
        self.pending = False
        self.writes = 0
        self.closed_count = 0
        self.after_close = 0
        self.flushed = 0
        self.failed = False
        self.log = log

    def closer(self):
        self.closed_count += 1

    def _frame(self):
        """Number of the frame being written."""
        count, pos = 0, 0
        while pos + 4 <= len(self.data):
            size = int.from_bytes(self.data[pos : pos + 4], "big")
            if pos + 4 + size > len(self.data):
                break
            pos += 4 + size
            count += 1
        return count, pos

    def write(self, data):
        if sched.CURRENT is not None:
            sched.CURRENT.point("sink-write")
        if self.failed or self.closed_count:
            self.after_close += 1
        self.writes += 1
        num, pos = self._frame()
        data = bytes(data)
        if self.fail_at == num:
            if self.kind in ("oserror", "partial") and (
                self.kind == "oserror" or len(self.data) > pos
            ):
                self.failed = True
                raise OSError("refused")
            if self.kind == "partial":
                self.data += data[:3]
                return min(3, len(data))
            if self.kind == "valueerror":
                self.failed = True
                raise ValueError("closed file")
            if self.kind == "nothing":
                self.failed = True
                return 0
            if self.kind == "none":
                self.failed = True
                return None
        if self.kind == "short":
            self.data += data[:7]
            return min(7, len(data))
        self.data += data
        return len(data)

    def flush(self):
        num, _ = self._frame()
        self.flushed = num
        if self.kind == "flush" and num > self.fail_at:
            self.failed = True
            raise OSError("cannot flush")


KINDS = [
    "ok", "short", "oserror:0", "oserror:1", "valueerror:0", "partial:0",
    "partial:1", "nothing:0", "none:0", "flush:0", "flush:1",
]


def whole(count):
    return b"".join(data for _, data in the_frames(count))


def pump(writer, queue, frame):
    """Have the writer process one frame, to the end."""
    queue.put(frame)
    queue.put(None)
    writer.run()


class Model:
    """What each sink must have."""

    def __init__(self, sink, sid, flush, closing):
        self.sink, self.sid = sink, sid
        self.flush, self.closing = flush, closing
        self.want = b""
        self.taken = 0
        self.live = True
        self.closes = 0

    def frame(self, data):
        """Returns whether the frame is delivered."""
        kind, at = self.sink.kind, self.sink.fail_at
        if kind == "flush":
            if self.flush and self.taken >= at:
                self.want += data
                self.taken += 1
                self.fail()
                return None  # may or may not count
        elif at == self.taken:
            if kind == "partial":
                self.want += data[:3]
            self.fail()
            return False
        self.want += data
        self.taken += 1
        return True

    def fail(self):
        self.live = False
        if self.closing:
            self.closes += 1


def history(depth, kinds, acts, nsinks=3, nqueues=2, flags=False):
    """Every history of attaching, detaching, failing and frames."""

    def body(ch):
        env = TelemetryEnvironment(1500, app_id_basis=0.5, metrics_rate=1.0)
        handled = []
        writer, queue = default_writer(
            "w",
            handled.append if not flags or ch.flag("handler") else None,
            env,
        )
        handler = writer.error_handle is not None
        models, queues, failed_ids = [], [], []
        writes, low, size_low, slack, size_slack = 0, 0, 0, 0, 0
        qwrites = 0
        nframes = 0
        for _ in range(depth):
            act = ch.pick(acts)
            live = [m for m in models if m.live]
            if act == "end":
                break
            if act == "add":
                if len(models) >= nsinks:
                    raise Prune("enough sinks")
                kind = ch.pick(kinds)
                flush = kind.startswith("flush") or (
                    kind == "ok" and ch.flag("flush")
                )
                sink = Sink(kind)
                sid = writer.add_stream(sink, sink.closer, flush)
                ch.check(
                    sid not in [m.sid for m in models], f"id {sid} twice"
                )
                models.append(Model(sink, sid, flush, True))
            elif act == "remove":
                if not models:
                    raise Prune("nothing to remove")
                model = ch.pick(models)
                call = ch.flag("call closer")
                got = writer.remove_stream(model.sid, call)
                ch.equal(got, model.live, "remove_stream")
                if model.live and call:
                    model.closes += 1
                model.live = False
            elif act == "queue":
                if len(queues) >= nqueues:
                    raise Prune("enough queues")
                qid, client = writer.registered_queue()
                queues.append([qid, client, [], True])
            elif act == "unqueue":
                if not queues:
                    raise Prune("nothing to remove")
                item = ch.pick(queues)
                inject = ch.flag("inject")
                ch.equal(
                    writer.remove_queue(item[0], inject), item[3], "remove_queue"
                )
                if item[3] and inject:
                    item[2].append(None)
                item[3] = False
            elif act == "frame":
                frame, data = the_frames(nframes + 1)[nframes]
                nframes += 1
                pump(writer, queue, frame)
                for model in live:
                    got = model.frame(data)
                    if got:
                        low += 1
                        size_low += len(data)
                    else:
                        slack += 1
                        size_slack += len(data)
                    if not model.live:
                        failed_ids.append(model.sid)
                for item in queues:
                    if item[3]:
                        item[2].append(frame)
                        qwrites += 1
            # after every step
            for model in models:
                sink = model.sink
                ch.check(
                    sink.data == model.want,
                    lambda m=model, s=sink: f"sink {m.sid} ({s.kind}) has "
                    f"{s.data.hex()}, expected {m.want.hex()}",
                )
                ch.equal(sink.closed_count, model.closes, "times closed")
                ch.equal(sink.after_close, 0, "writes after failing")
                if model.flush and model.live:
                    ch.equal(sink.flushed, model.taken, "flushed frames")
            for _, client, want, __ in queues:
                got = list(client.queue)
                ch.check(
                    len(got) == len(want)
                    and all(a is b for a, b in zip(got, want)),
                    "frames of a queue client",
                )
            ch.equal(
                env.get_metric("w.stream_count"),
                sum(m.live for m in models),
                "stream_count",
            )
            ch.equal(
                env.get_metric("w.queue_count"),
                sum(q[3] for q in queues),
                "queue_count",
            )
            writes = env.get_metric("w.stream_writes")
            ch.check(low <= writes <= low + slack, f"stream_writes {writes}")
            if env.has_metric("w.bytes_written"):
                size = env.get_metric("w.bytes_written")
                ch.check(
                    size_low <= size <= size_low + size_slack,
                    f"bytes_written {size}, at least {size_low}",
                )
            else:
                ch.equal(low, 0, "frames written without bytes_written")
            ch.equal(env.get_metric("w.queue_writes"), qwrites, "queue_writes")
            if handler:
                ch.equal(handled, failed_ids, "error handler calls")
            ch.state(
                (
                    [(m.sink.kind, m.taken, m.live, m.flush) for m in models],
                    [(len(q[2]), q[3]) for q in queues],
                )
            )
        # the queue is fully accounted for (join() would return)
        ch.equal(queue.unfinished_tasks, 0, "unfinished queue elements")
        ch.outcome(
            ([(m.sid, m.taken, m.closes) for m in models], qwrites, handled)
        )

    return body


def contexts(ch):
    """Scoped streams and files; writers of the same path append or not."""
    import os
    from pathlib import Path
    import tempfile

    writer, queue = default_writer("w")
    every = the_frames(4)
    with tempfile.TemporaryDirectory(dir=os.environ.get("MC_SCRATCH")) as tmp:
        path = Path(tmp, "out")
        path.write_bytes(b"old")
        append = ch.flag("append")
        flush = ch.flag("flush")
        count = ch.pick([0, 1, 3])
        fail = ch.flag("body raises")
        other = BytesIO()
        try:
            with writer.add_file(path, flush, append):
                with writer.stream_added(other, other.close, flush):
                    for frame, _ in every[:count]:
                        pump(writer, queue, frame)
                    if flush:
                        ch.equal(
                            path.read_bytes(),
                            (b"old" if append else b"") + whole(count),
                            "flushed file",
                        )
                    ch.equal(other.getvalue(), whole(count), "stream")
                    if fail:
                        raise KeyError("mine")
        except KeyError:
            ch.check(fail, "raised")
        pump(writer, queue, every[3][0])
        ch.equal(
            path.read_bytes(),
            (b"old" if append else b"") + whole(count),
            "file",
        )
        ch.check(other.closed, "stream left open")
    ch.outcome((append, flush, count, fail))


# ------------------------------------------------------------- schedules


def concurrent(setup, ops=None, timers=False):
    """The writer's own thread against the given tasks.

    setup(ch, writer, queue) returns (tasks, frames to put, judge)."""

    def body(ch):
        sched.watch(WRITER if ops is None else ops)
        box = {}
        with_env = None
        writer, queue = default_writer("w", None, with_env)

        def main():
            with sched.quiet():
                tasks, count, judge = setup(ch, writer, queue)
                box["judge"] = judge
                if not writer.start():
                    raise Violation("the writer does not start")
            threads = [sched.spawn(n, f) for n, f in tasks]
            for frame, _ in the_frames(count):
                queue.put(frame)
            sched.join_all(threads)
            queue.join()
            with sched.quiet():
                box["alive"] = writer.thread is not None and (
                    writer.thread.is_alive()
                )
            queue.put(None)
            thread = writer.thread
            if thread is not None:
                thread.join()

        done = sched.run(ch, main, timers=timers)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        ch.check(box["alive"], "the writer thread ended")
        box["judge"]()

    return body


def is_run(data, count, first=0):
    """Data is a run of consecutive whole frames; returns (start, end)."""
    for start in range(first, count + 1):
        for end in range(start, count + 1):
            want = b"".join(d for _, d in the_frames(count)[start:end])
            if want == data:
                return (start, end)
    return None


def add_remove(count, faulty=None):
    """One sink stays; another is attached (then detached) meanwhile."""

    def setup(ch, writer, queue):
        stay = Sink()
        writer.add_stream(stay, stay.closer)
        late = Sink()
        bad = Sink(faulty) if faulty else None
        if bad:
            writer.add_stream(bad, bad.closer)
        box = {}

        def other():
            box["id"] = writer.add_stream(late, late.closer)
            box["removed"] = writer.remove_stream(box["id"])

        def judge():
            ch.equal(stay.data, whole(count), "the sink that stays")
            ch.equal(stay.closed_count, 0, "times closed")
            part = is_run(late.data, count)
            ch.check(part is not None, f"late sink: {late.data.hex()}")
            ch.equal(box["removed"], True, "remove_stream")
            ch.equal(late.closed_count, 1, "times the late sink closed")
            if bad:
                ch.equal(bad.closed_count, 1, "times the faulty sink closed")
                ch.equal(bad.after_close, 0, "writes after failing")
            ch.outcome((part, bad and bad.data))

        return [("other", other)], count, judge

    return setup


def late_then_frame(count):
    """A sink attached before a frame is put gets that frame."""

    def setup(ch, writer, queue):
        stay = Sink()
        writer.add_stream(stay, stay.closer)
        late = Sink()
        mine = the_frames(count + 1)[count]

        def other():
            writer.add_stream(late, late.closer)
            queue.put(mine[0])

        def judge():
            ch.check(late.data.endswith(mine[1]) or mine[1] in late.data,
                     f"late sink lacks the frame: {late.data.hex()}")
            # stay received everything, with mine somewhere in between
            parts = [d for _, d in the_frames(count)]
            orders = [
                b"".join(parts[:i] + [mine[1]] + parts[i:])
                for i in range(count + 1)
            ]
            ch.check(stay.data in orders, f"stay: {stay.data.hex()}")
            ch.check(stay.data.endswith(late.data), "not a tail of the frames")
            ch.outcome((stay.data, late.data))

        return [("other", other)], count, judge

    return setup


def fail_and_remove(kind, count=2):
    """A sink fails while another thread removes it: closed exactly once."""

    def setup(ch, writer, queue):
        stay = Sink()
        bad = Sink(kind)
        calls = []
        writer.error_handle = calls.append
        bid = writer.add_stream(bad, bad.closer)
        writer.add_stream(stay, stay.closer)
        box = {}

        def other():
            box["got"] = writer.remove_stream(bid)

        def judge():
            ch.equal(stay.data, whole(count), "the sink that stays")
            ch.equal(bad.closed_count, 1, "times closed")
            ch.equal(
                len(calls) + int(box["got"]), 1, "removed by whom (handler, us)"
            )
            ch.check(
                not writer.remove_stream(bid), "the failed sink is still there"
            )
            ch.outcome((box["got"], len(calls), bad.data))

        return [("other", other)], count, judge

    return setup


def close_under(count=2):
    """The TCP pattern: a handler closes its file, then removes its sink."""

    def setup(ch, writer, queue):
        stay = BytesIO()
        file = BytesIO()
        fid, sem = writer.add_semaphore_stream(file)
        writer.add_stream(stay)
        got = []

        def other():
            file.close()
            got.append(writer.remove_stream(fid, False))

        def judge():
            ch.equal(stay.getvalue(), whole(count), "the sink that stays")
            released = sem.acquire(False)
            ch.equal(released, not got[0], "semaphore posted by the writer")
            ch.outcome((got, released))

        return [("other", other)], count, judge

    return setup


def queues(count, size, inject, consume):
    """Queue clients come and go; a removed one never blocks the writer."""

    def setup(ch, writer, queue):
        stay = BytesIO()
        writer.add_stream(stay)
        keep_id, keep = writer.registered_queue(None, 0)
        gone_id, gone = writer.registered_queue(None, size)
        got, box = [], {}

        def other():
            if not inject:
                for _ in range(consume):
                    got.append(gone.get())
            box["removed"] = writer.remove_queue(gone_id, inject)

        def client():
            while not got or got[-1] is not None:
                got.append(gone.get())

        def judge():
            ch.equal(stay.getvalue(), whole(count), "stream")
            want = [f for f, _ in the_frames(count)]
            ch.check(list(keep.queue) == want, "frames of the client that stays")
            ch.equal(box["removed"], True, "remove_queue")
            rest = got + list(gone.queue)
            if inject:
                ch.check(rest[-1] is None, "no end marker")
                rest = rest[:-1]
            ch.check(
                rest == want[: len(rest)] and (inject or len(rest) >= consume),
                "frames of the removed client",
            )
            ch.equal(writer.remove_queue(gone_id), False, "removed twice")
            ch.equal(writer.remove_queue(keep_id), True, "still there")
            ch.outcome((len(rest), len(got)))

        tasks = [("other", other)]
        if inject:
            tasks.append(("client", client))
        return tasks, count, judge

    return setup


def queue_manager(count):
    """A client manager closes its clients while frames are delivered."""

    def setup(ch, writer, queue):
        man = QueueClientManager("m", writer)
        one, one_q = man.add_client_queue()
        two, two_q = man.add_client_queue()
        box = {}

        def closer():
            box["closed"] = man.close_clients()

        def leaver():
            box["left"] = man.remove_client_queue(one, False)

        def judge():
            ch.equal(box["closed"] + int(box["left"]), 2, "clients removed")
            want = [f for f, _ in the_frames(count)]
            for client, ends in ((one_q, not box["left"]), (two_q, True)):
                items = list(client.queue)
                if ends:
                    ch.check(items and items[-1] is None, "no end marker")
                    items = items[:-1]
                ch.check(items == want[: len(items)], "frames of a client")
            ch.equal(man.close_clients(), 0, "clients closed twice")
            ch.outcome((box["closed"], one_q.qsize(), two_q.qsize()))

        return [("closer", closer), ("leaver", leaver)], count, judge

    return setup


def stopping(count):
    """Every frame put before a stop is delivered."""

    def body(ch):
        sched.watch(LIGHT)
        writer, queue = default_writer("w")
        sink = Sink("short")
        writer.add_stream(sink, sink.closer)
        box = {}

        def main():
            with sched.quiet():
                writer.start()
            while writer.state.name != "RUNNING":
                sched.v_sleep(0.1)
            for frame, _ in the_frames(count):
                queue.put(frame)
            box["stopped"] = writer.stop()

        done = sched.run(ch, main, timers=False)
        for name, err in sched.errors(done):
            raise Violation(f"{name} raised {type(err).__name__}: {err}")
        ch.equal(box["stopped"], True, "stop")
        ch.equal(sink.data, whole(count), "frames delivered before the stop")
        ch.equal(queue.qsize(), 0, "frames left")
        ch.outcome(len(sink.data))

    return body


def udp(plan, count=2):
    """UDP clients (real sockets) and an unrelated sink that fails."""

    def setup(ch, writer, queue):
        one, two = udp_receiver(), udp_receiver()
        man = udp_manager(writer)
        ids = [
            man.add_client(Host(*sock.getsockname()), True)[0]
            for sock in (one, two)
        ]
        for sock in (one, two):
            udp_take(sock)  # probes
        file = man.clients[ids[0]][1]
        bad = Sink("oserror:0")
        if "bad" in plan:
            writer.add_stream(bad, bad.closer)
        box = {}

        def other():
            if "remove" in plan:
                man.remove_client(ids[0])
            if "all" in plan:
                man.remove_all()

        def breaker():
            if "break" in plan:
                # the first client's file is closed under the writer
                file.close()

        def judge():
            want = [d for _, d in the_frames(count)]
            got = [udp_take(sock) for sock in (one, two)]
            first = b"".join(got[0])
            ch.check(
                first in [b"".join(want[:i]) for i in range(count + 1)],
                f"first client: {got[0]}",
            )
            if "all" not in plan:
                ch.equal(got[1], want, "second client")
            left = set(man.clients)
            want_left = set(ids)
            if "all" in plan:
                want_left = set()
            elif "remove" in plan or len(got[0]) < count:
                want_left = {ids[1]}
            ch.check(
                left == want_left
                # closing the file under the writer delivers what it has
                or ("break" in plan and left == {ids[1]}),
                f"clients left: {left}",
            )
            if "bad" in plan:
                ch.equal(bad.closed_count, 1, "times the faulty sink closed")
            man.remove_all()
            ch.equal(len(man.clients), 0, "clients")
            for sock in (one, two):
                sock.close()
            ch.outcome((len(got[0]), len(got[1])))

        tasks = []
        if plan & {"remove", "all"}:
            tasks.append(("other", other))
        if "break" in plan:
            tasks.append(("breaker", breaker))
        return tasks, count, judge

    return setup


ACTS = ["frame", "add", "remove", "queue", "unqueue", "end"]


def scenarios(tier):
    deep = tier == "thorough"
    more = 2 if deep else 1
    small = ["ok", "short", "oserror:0", "partial:1", "flush:0"]
    out = [
        Scenario("history-kinds", history(4, KINDS, ["add", "frame", "end"])),
        Scenario(
            "history-sinks",
            history(
                6 if deep else 5, small, ["frame", "add", "remove", "end"], 2
            ),
        ),
        Scenario("history-all", history(5 if deep else 4, small[1:3], ACTS, flags=True)),
        Scenario(
            "history-queues",
            history(6, ["ok"], ["frame", "queue", "unqueue", "end"]),
        ),
        Scenario("contexts", contexts),
        Scenario("add-remove", concurrent(add_remove(2)), 2),
        Scenario(
            "add-remove-fail", concurrent(add_remove(2, "oserror:0")), more
        ),
        Scenario("late-frame", concurrent(late_then_frame(1)), 2),
        Scenario("close-under", concurrent(close_under()), 2),
        Scenario("manager", concurrent(queue_manager(2), LIGHT), more),
        Scenario("stop", stopping(2), 2),
    ]
    for kind in ("oserror:0", "partial:1", "nothing:1"):
        out.append(
            Scenario(
                f"fail-remove-{kind}", concurrent(fail_and_remove(kind)), more
            )
        )
    for size in (0, 1):
        for inject in (False, True):
            for consume in (0, 1):
                if inject and consume:
                    continue
                name = f"queues-{size}-{int(inject)}-{consume}"
                out.append(
                    Scenario(
                        name,
                        concurrent(queues(2, size, inject, consume), LIGHT),
                        more,
                    )
                )
    for plan in (
        {"remove"}, {"all"}, {"bad"}, {"bad", "remove"}, {"break"},
        {"break", "remove"}, {"break", "all"},
    ):
        out.append(
            Scenario(
                "udp-" + "-".join(sorted(plan)),
                concurrent(udp(plan)),
                more,
            )
        )
    return out
