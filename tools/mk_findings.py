#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS.jsonl: the fix commits of /repo (and findings
left unrepaired, of which there are none)."""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
for line in """
4bc3df1 C04
5e8b1fa C03
07457ae C04
b64990a C04
f82e1d1 C03
8226ecf C03
07408bf C05
5bb741d C06
1e5b492 C09
bd6f3a3 C08
a044486 C09 C23
8cdce53 C09
b4c452d C09
9f415b1 C10 C09
70955a1 C10
6af1a91 C10
7c44a34 C10
eb6e37e C10
8528b33 C12 | The counters of a metered queue were updated before the put or get that they count (which may wait, or raise Full/Empty), so they disagreed with its contents.
572180d C12 | metric_add read and wrote a metric in two steps and looked it up unlocked: concurrent updates were lost, and registering a metric twice at once raised.
c54cf3f C12 | Two threads changing a daemon metric published the totals in the wrong order, leaving the older one.
16aec3d C12 C15 | The state metric of a daemon was set outside of its lock, so the last published state could differ from the actual one.
a49124f C12 C15 | A daemon with an environment that has metrics disabled raised on every state change.
20b2343 C12 | Counters stopped at the largest value of their type instead of wrapping.
599f447 C13 | dispatch waited for room in the full frame queue while holding the environment's lock, which the consumer's metrics need: deadlock.
49745e7 C13 C02 | Two concurrent writes of a channel captured the same previous value, or events in the opposite order of the changes.
a7a8317 C14 | The writer thread ended when a stream raised ValueError (closed file) or was removed while a frame was written.
ce57da6 C14 | A stream accepting only a part of the data (raw file, socket file) got a truncated frame.
fb73f3e C24 | Flush attributes of removed streams were kept for ever.
e6d68e4 C14 | The writer waited for ever on the full queue of a client that was removed.
6f36d35 C24 | Identifiers of queue clients removed by the writer stayed in the list of active clients.
901ef08 C14 C24 | Failure of a stream that isn't a udp client made the udp client manager's error handle raise KeyError in the writer thread.
8a6a16d C24 | Removing a udp client by the identifier of another stream detached that stream.
c777cbe C14 C24 | An error while closing a failed udp client (its buffer can't be flushed) ended the writer thread and leaked the socket.
f4db437 C24 | The queue of a tcp client that disconnected stayed registered with the writer.
fca0767 C24 | A tcp client accepted while the daemon stops was served by nobody and never closed.
3cea49e C15 | perform(NONE) raised KeyError.
d96b98c C15 | A KeyError raised within a stop hook was taken for an absent hook, so stop succeeded without stopping.
ffc5f9b C15
05d5f8d C15 | stop reported success although the worker was still running after the join timeout; a start then ran a second worker.
12d8a53 C15 | A worker stopping its own daemon raised 'cannot join current thread' and left it stopping.
2656563 C15
7967cfd C16
012d427 C16 | A command with data that can't be encoded as JSON ended the command daemon.
28f63e4 C16 | A handler that raises ended the command daemon; its caller and later ones got no answer.
7acb4a0 C16 | A result callback that raises ended the command daemon.
013c2bf C16 | A list of daemon names with an unusable element performed the operation on those before it, then raised.
2dede6b C16 | A udp client command with only one of host and port raised (or added a client to nowhere).
b2e3341 C16 | A websocket command that isn't JSON (or no object) ended the connection without an answer.
6cd95fd C17
0ef5de1 C17 | An integer command to an enum channel set it to a value that its enum doesn't have.
f14caea C24 C25 | Udp clients got datagrams that split or combined frames arbitrarily.
5478e62 C18 | Looking up an unknown daemon registered a dependency list for it.
70dab62 C18 | A daemon was started although its dependency failed to start.
9afac5c C18 | The command 'start all' started daemons in registration order, not after their dependencies.
e5d4e8a C18 | Starting the server failed when the websocket command service (a dependency of others) was not enabled.
95d0c48 C18 | An application task with the name of another daemon replaced it.
0c32b31 C19 | A scale change applied to source time that had elapsed before it.
bc03788 C19 | Sleeping while the scale is zero raised ZeroDivisionError.
97a634a C19 | Scaling time to zero and back paused and unpaused daemons that weren't running, or stayed paused.
c08f694 C20 | Concurrent runs of a state machine interleaved: a state was run twice and transitions were made from a state already left.
b5fea97 C20 | A state shared by two machines lost the metrics of one of them.
23ef9e6 C20 | A hook returning False kept the enter/leave counters from being updated.
faafcf0 C20 | A state or machine whose metric name was taken by something else was accepted and counted nothing (or counted in the other's metric).
76085de C21
d75ca49 C21 | Data were read twice when reading failed half way.
77c32f8 C21 | A file client without an environment failed to read.
aa6d568 C22 | A request for an unknown method or path was listed as a registered one.
5d05fe5 C22 | Registering a handler while requests are handled made the listing fail.
441be42 C22 | Handlers registered with a trailing slash, query or without a leading slash were never found.
c5dedd7 C22
e66a09b C22 | After an error response (e.g. unsupported method) a second response or body followed.
4e978ff C22 | Text of exceptions or requests in the status line (line breaks, non latin-1) broke the response.
71d0d3e C22 | Fields with an empty value were dropped from forms and queries.
e578a32 C22 | A request with a malformed or short body ended the connection without an answer, or left its rest to be read as the next request.
1d6070e C22
4a6cced C22 | An https service couldn't be started again, and one client that doesn't complete its handshake blocked all others.
3f9f14a C22 | A shutdown or command request with invalid parameters got no answer.
150e8fe C23 | Loading an object from JSON did not use the schemas of the manager, so invalid objects were accepted.
2b64b9f C23 | Loading 'null' or an empty file gave an object.
a6e7f4a C23 | Coercing mapping keys to integers silently dropped entries whose keys coincide.
b7f172c C23 | An enumeration two of whose values share a name was accepted; names and values weren't inverse.
6739d5f C23 | A default value the enumeration doesn't have was accepted.
882d28d C23 | Loading an enum registry with incomplete data raised or left a part of it registered.
1cc91d2 C23 | A registry with an invalid enum reported to be valid.
e3def5f C23 | Encoding an enum registry while an enum is added raised.
96f9aaf C25 C24 | Unbuffered udp clients were detached by a first refused datagram, and each frame took a datagram; combines frames only up to the mtu now.
ab5337d C25 | Stopping a socket client put its end marker before the last frames (or twice, or never), and closed the socket under the reader.
007ef59 C25 | A socket client started again continued the partial frame of the connection before.
d67302a C25 C24 | The handler of a websocket client waited for frames within the event loop: one idle client held up all others.
b9bed40 C25 | A stop did not wake an idle event loop, which then ended late or not at all.
""".strip().splitlines():
    head, _, what = line.partition("|")
    rev, *props = head.split()
    T[rev] = (props, what.strip())
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h%x01%s%x01%b%x02"],
    capture_output=True, text=True, check=True,
).stdout
seen = set()
with open(os.path.join(ROOT, "KNOWN_FINDINGS.jsonl"), "w") as out:
    out.write(
        "# One JSON object per line; \"fixed\" entries suppress nothing. No "
        "finding is left unrepaired.\n"
    )
    for item in log.split("\x02"):
        item = item.strip("\n")
        if not item:
            continue
        rev, subj, body = item.split("\x01")
        if not subj.startswith("fix:"):
            continue
        props, what = T[rev]
        seen.add(rev)
        what = what or " ".join(body.split())
        for prop in props:
            out.write(json.dumps({
                "property": prop, "status": "fixed", "commit": rev,
                "what": what,
                "line": f"fixed: property={prop} {rev} {what}",
            }) + "\n")
assert seen == set(T), set(T) - seen
print(len(seen), "fixes")
