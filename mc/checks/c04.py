"""C04: a message cache survives restart and crashes."""
import os
import shutil
import tempfile
import zlib

from vtelem.message.cache import MessageCache
from vtelem.types.frame import MessageType

from mc import crash
from mc.checks.c03 import SCRATCH, make
from mc.explore import Scenario

ASSUMPTIONS = [
    "a crash is the death of the process: completed file operations stay, in "
    "order; a file being written keeps a prefix (1 byte, half, all but one)",
    "bounds: histories up to the stated depth over two messages of two "
    "fragments (equal or different types), one crash per history",
    "scratch directories below the system's temporary directory only",
]
AGN, TXT = MessageType.AGNOSTIC, MessageType.TEXT


def genuine(ch, cache, msgs):
    """Whatever is complete is one of the messages, byte for byte."""
    done = set()
    for mtype in MessageType:
        for crc in cache.complete(mtype):
            got = cache.content(mtype, crc)
            ch.check(got is not None, "complete without content")
            keys = [
                k for k, m in msgs.items()
                if m[0] == mtype and zlib.crc32(m[2]) == crc
            ]
            ch.check(keys, f"unknown message {mtype} {crc}")
            ch.check(
                bytes(got[1]) == msgs[keys[0]][2],
                lambda: f"{bytes(got[1])!r} instead of {msgs[keys[0]][2]!r}",
            )
            done.add(keys[0])
    return done


def deliver(ch, cache, msgs, keys_idx):
    for key, idx in keys_idx:
        cache.ingest(msgs[key][3][idx])
        ch.step()


def completed_saves(ops, upto):
    """Fragments known to be saved when the first upto ops are complete."""
    have, saved = {}, {}
    for oper in ops[:upto]:
        if oper == "save":
            saved = {k: set(v) for k, v in have.items()}
        elif oper == "clean":
            have, saved = {}, {}
        elif oper != "reopen":
            have.setdefault(oper[0], set()).add(oper[1])
    return saved


SPECS = {
    "same": [("a", TXT, 2, 1), ("b", TXT, 2, 2)],
    "other": [("a", AGN, 2, 2), ("b", TXT, 2, 1)],
}


def whole(msgs, key):
    return set(range(len(msgs[key][3])))


def restart(depth, with_clean):
    """No crash: save at any moment, restart, deliver what is missing."""

    def body(ch):
        msgs = make(ch, SPECS[ch.pick(["same", "other"], "types")], 3)
        events = [(k, i) for k in msgs for i in range(2)] + ["save", "reopen"]
        if with_clean:
            events.append("clean")
        root = tempfile.mkdtemp(prefix="m", dir=SCRATCH)
        try:
            path = os.path.join(root, "cache")
            cache = MessageCache(path)
            # what the current object knows, and what the last save holds
            have = {k: set() for k in msgs}
            saved = {k: set() for k in msgs}
            fuzzy = False  # re-opened without saving: only bounds are known
            for _ in range(depth):
                oper = ch.pick(events, "op")
                ch.note(oper)
                if oper == "save":
                    cache.write()
                    saved = {k: set(v) for k, v in have.items()}
                elif oper == "reopen":
                    cache = MessageCache(path)
                    fuzzy = fuzzy or have != saved
                    have = {k: set(v) for k, v in saved.items()}
                elif oper == "clean":
                    cache.clean()
                    fuzzy = False
                    have = {k: set() for k in msgs}
                    saved = {k: set() for k in msgs}
                    ch.check(not genuine(ch, cache, msgs), "not empty")
                else:
                    deliver(ch, cache, msgs, [oper])
                    have[oper[0]].add(oper[1])
                done = genuine(ch, cache, msgs)
                want = {k for k in msgs if have[k] == whole(msgs, k)}
                if fuzzy:
                    ch.check(want <= done, f"lost {want - done}")
                else:
                    ch.equal(done, want, "complete messages")
                ch.state((sorted((k, sorted(v)) for k, v in have.items()),
                          sorted((k, sorted(v)) for k, v in saved.items())))
            # save, restart, deliver only what is missing
            cache.write()
            cache = MessageCache(path)
            want = {k for k in msgs if have[k] == whole(msgs, k)}
            done = genuine(ch, cache, msgs)
            ch.check(want <= done, f"lost by restart: {want - done}")
            if not fuzzy:
                ch.equal(done, want, "complete after restart")
            for key in msgs:
                deliver(ch, cache, msgs,
                        [(key, i) for i in whole(msgs, key) - have[key]])
            ch.equal(genuine(ch, cache, msgs), set(msgs), "after the rest")
            ch.outcome((sorted(want), fuzzy))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    return body


_DRY = {}


def crashing(depth, tail=None):
    def body(ch):
        types = ch.pick(["same", "other"], "types")
        msgs = make(ch, SPECS[types], 3)
        events = [("a", 0), ("a", 1), ("b", 0), "save"]
        ops = [ch.pick(events, "op") for _ in range(depth)]
        if tail:
            ops = ops + list(tail)
        key = (types, tuple(ops))
        root = tempfile.mkdtemp(prefix="m", dir=SCRATCH)
        try:
            path = os.path.join(root, "cache")
            if key not in _DRY:
                marks = []

                def dry(points):
                    res = traced(path, msgs, ops, points, marks)
                    return res, marks

                died, res, labels = crash.run(root, dry)
                ch.check(not died and res[0] == "ok", f"history failed: {res}")
                _DRY[key] = (labels, res[1][1])
                shutil.rmtree(root)
                os.mkdir(root)
            labels, marks = _DRY[key]
            # crash in the last operation (earlier ones are the last operation
            # of a shorter history)
            first = marks[-2] if len(marks) > 1 else 0
            die_at = first + ch.choose(max(1, len(labels) - first))
            ch.note(f"dies before event {die_at}")
            died, res, _ = crash.run(
                root, lambda p: traced(path, msgs, ops, p, []), die_at
            )
            ch.step(len(ops))
            if not died and die_at < len(labels):
                ch.check(res and res[0] == "ok", f"history failed: {res}")
            saved = completed_saves(ops, len(ops) - 1)
            if ops[-1] == "clean":
                saved = {}
            try:
                cache = MessageCache(path)
            except Exception as exc:
                where = labels[die_at] if die_at < len(labels) else "end"
                ch.check(False, f"cannot be opened after dying at {where}: {exc!r}")
            done = genuine(ch, cache, msgs)
            for name, idxs in saved.items():
                if idxs == whole(msgs, name):
                    ch.check(name in done, f"saved message {name} lost")
            ch.state((types, tuple(ops), die_at))
            ch.outcome((tuple(ops), tuple(sorted(done))))
            # what was saved needs only the missing fragments
            if ch.choose(2) == 0:
                for name in msgs:
                    rest = whole(msgs, name) - saved.get(name, set())
                    if ops[-1] == "clean":
                        rest = whole(msgs, name)
                    deliver(ch, cache, msgs, [(name, i) for i in sorted(rest)])
            else:
                deliver(ch, cache, msgs,
                        [(k, i) for i in (1, 0) for k in ("b", "a")])
            ch.equal(genuine(ch, cache, msgs), set(msgs), "after redelivery")
            # and that state can be saved and restored
            cache.write()
            ch.equal(genuine(ch, MessageCache(path), msgs), set(msgs), "reopened")
        finally:
            shutil.rmtree(root, ignore_errors=True)

    return body


def traced(path, msgs, ops, points, marks):
    """perform(), recording the event count after every operation."""
    cache = MessageCache(path)
    for oper in ops:
        if oper == "save":
            cache.write()
        elif oper == "clean":
            cache.clean()
        else:
            cache.ingest(msgs[oper[0]][3][oper[1]])
        marks.append(points.count)
    return True


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("restart", restart(4 if deep else 3, False)),
        Scenario("restart-clean", restart(4 if deep else 3, True)),
        Scenario("crash-1", crashing(1)),
        Scenario("crash-2", crashing(2)),
        Scenario("crash-3", crashing(3)),
        Scenario("crash-save", crashing(3, ["save"])),
        Scenario("crash-clean", crashing(2, ["save", "clean"])),
    ] + ([Scenario("crash-4", crashing(4)),
          Scenario("crash-save-4", crashing(4, ["save"]))] if deep else [])
