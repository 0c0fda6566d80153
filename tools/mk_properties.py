#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is easier to edit here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Data frames carry exactly the values due, in the documented layout",
  "Every channel value due at a dispatch is carried exactly once, in registration order, by the data frames of that dispatch, and decoding those frames against a registry with the same channels returns the same ids and bit-identical values for every primitive type and boundary value. Each frame is the documented big-endian byte layout (application id, type, millisecond timestamp, count, ids, values, optional trailing CRC-32 over everything before it), has the length it reports, and never exceeds the MTU. Nothing due means no frame.",
  ["inputs", "configurations"], "all sequences of up to 4 channels over the 11 primitive types with boundary values, every MTU from the smallest that fits one value up to one that fits all, CRC on/off/invalidated, plus all frame-split positions of long uniform channel lists",
  "tests round-trip one MTU with random data through the repository's own encoder and decoder, so a layout drift made symmetrically in both, or a fault at one particular split position or type combination, is not seen",
  ["vtelem/channel/framer.py", "vtelem/frame/__init__.py", "vtelem/frame/channel.py", "vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/classes/byte_buffer.py", "vtelem/enums/primitive.py"],
  [("space accounting and late element append", "frame/channel.py ChannelFrame.add / finalize_hook"), ("frame splitting", "channel/framer.py build_data_frames"), ("header/footer parse", "parsing/encapsulation.py")],
  [("count/used", "how much of the frame is filled", "frame/__init__.py")], ["frames taken from the environment's frame queue", "decode_frame result"])

p("C02", "Every captured channel change is framed once, in order, losslessly",
  "For a change-tracked channel, every accepted write whose value differs from the current value produces exactly one event holding previous value and time and new value and time, and a write that does not change the value, or is rejected, produces none (up to the limit of 256 pending changes). The events of one dispatch are carried by its event frames exactly once and in the order the changes happened, and decoding the frames yields the same ids, values and millisecond times. Frames follow the documented layout and stay within the MTU at every split position.",
  ["histories", "inputs", "configurations"], "all write/command/increment/dispatch sequences up to depth 5 over several tracked and untracked channels of differing widths, every MTU at which the split positions differ",
  "tests capture a handful of random changes at one MTU; duplicates, reorderings and split errors need particular sequences and sizes",
  ["vtelem/classes/type_primitive.py", "vtelem/channel/__init__.py", "vtelem/classes/event_queue.py", "vtelem/channel/framer.py", "vtelem/frame/channel.py", "vtelem/parsing/frames.py"],
  [("change callback", "classes/type_primitive.py TypePrimitive.set"), ("consume", "classes/event_queue.py"), ("event frame splitting", "channel/framer.py build_event_frames")])

p("C03", "Messages reassemble exactly, whatever the fragment order or duplication",
  "A message split into frames for any MTU that fits at least one byte per frame is reassembled by a receiver to exactly the original bytes under its own type once every fragment has arrived, in any order, with duplicates, interleaved with fragments of other messages of the same or other types, including an empty message. The receiver never reports a message complete before all of its fragments have arrived, a lost fragment delays only its own message, and already completed messages are unaffected by late duplicates. Every fragment frame stays within the MTU and carries the message's type, number (modulo 2^16), CRC-32, its index and the total; a message needing more than 65535 fragments is refused.",
  ["histories", "inputs", "configurations"], "all delivery histories (every permutation, duplication up to 2, loss of any subset, interleaving of two messages) of messages of up to 4 fragments, all message lengths around the split boundaries, all MTUs in a range",
  "tests deliver each fragment once and in order; the order/duplication/interleaving space is only sampled by one history",
  ["vtelem/message/framer.py", "vtelem/message/cache.py", "vtelem/frame/message.py", "vtelem/frame/fields.py", "vtelem/parsing/frames.py"],
  [("fragment accounting", "message/cache.py MessageCache.ingest"), ("fragment slicing", "message/framer.py")])

p("C04", "A message cache survives restart and crashes without inventing content",
  "After saving, reopening a message cache on the same directory restores every complete message and every fragment received so far, so that delivering only the missing fragments completes each message. If the process dies at any point of a save (each file written wholly, partly or not at all from some point on), the cache can be reopened, messages complete at an earlier save still are, none is reported complete whose bytes differ from the original, and re-delivering all fragments completes every message with the right bytes. Clearing a cache leaves it empty on disk and in memory and usable like a fresh one.",
  ["crash_points", "histories"], "all save points in all short fragment histories, restart after each, every file-operation prefix of a save with torn last write, then redelivery",
  "tests save one cache at one moment and never crash",
  ["vtelem/message/cache.py", "vtelem/classes/data_cache.py"],
  [("fragment persistence", "message/cache.py store/load"), ("yaml/binary files", "classes/data_cache.py")])

p("C05", "Stream framing is independent of chunking and resynchronises safely",
  "A byte stream of length-prefixed frames yields the same sequence of frames however it is cut into chunks, including one byte at a time and empty chunks: every frame exactly once, in order, with its exact bytes, as soon as its last byte has arrived. Partially received frames are never delivered and never lost. When a length prefix exceeds the receiver's limit the frames before it are still delivered and the receiver accepts well-formed frames that arrive in later chunks.",
  ["inputs", "histories"], "every way to cut streams of up to 4 frames (sizes 0..5 and up to the limit) into chunks, every position of an oversized prefix, all prefix widths",
  "the one test feeds a single cut; reads from sockets and files cut anywhere",
  ["vtelem/frame/processor.py", "vtelem/classes/byte_buffer.py"],
  [("size latch", "frame/processor.py read_size"), ("chomp", "classes/byte_buffer.py read_bytes")])

p("C06", "Damaged or foreign frames are rejected, never misread, never fatal",
  "A frame carrying a checksum that was damaged (any bits or bytes) in its application id, timestamp, values, message bytes or checksum is never decoded into telemetry, and a frame of another application id is rejected when one is expected. No sequence of bytes makes decoding raise: it returns nothing, or exactly what the bytes say, and leaves registries unchanged. A client fed delimited frames of which any are damaged keeps running and delivers every well-formed one, in order.",
  ["inputs", "fault_sequences"], "every single-bit flip, every one-byte substitution from a boundary alphabet, every truncation and extension of representative frames of each type; all byte strings up to a small length; bad frames at every position of a client's input",
  "tests decode one hand-made bad checksum and a few dummy frames",
  ["vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/client/__init__.py", "vtelem/daemon/synchronous.py"],
  [("footer check", "parsing/encapsulation.py decode_frame")])

p("C07", "Channels are emitted exactly when their rate says, on every dispatch",
  "At each dispatch a channel is emitted if and only if at least its current rate period has elapsed since it was last emitted (since time zero at first), and then carries the value it holds at that moment; a channel with zero period is emitted on every dispatch. Rate changes, writes, commands and time moving by any step between dispatches change only the channels they address. The number of frames and emits reported by a dispatch equals the number produced.",
  ["histories"], "all operation sequences up to depth 6 over {advance by several steps, write, command, set rate, add channel, dispatch} with channels of different rates, against a reference schedule",
  "tests advance one environment by fixed steps and check counts; interactions of rate changes with partial periods are sampled at best",
  ["vtelem/channel/__init__.py", "vtelem/channel/environment.py", "vtelem/channel/framer.py", "vtelem/telemetry/environment.py"],
  [("emit", "channel/__init__.py Channel.emit"), ("dispatch", "channel/environment.py")])

p("C08", "Typed values accept exactly what they can represent",
  "Writing a value to a typed field or channel is accepted if and only if it has the field's kind (whether integer fields take booleans is left open) and lies in the range its wire encoding can hold; an accepted value can always be serialised, occupies exactly the declared size, and reads back equal from a buffer at any position (to single precision for 32-bit floats). A rejected write reports failure and changes neither value nor time nor emits an event, and an increment behaves as writing the sum. Reads and writes at an explicit buffer position leave the buffer's own position unchanged.",
  ["inputs", "histories"], "all 11 types times a boundary alphabet of values of every Python kind, every buffer position, all sequences of writes/increments to depth 4",
  "tests use random in-range values and two or three out-of-range ones",
  ["vtelem/classes/type_primitive.py", "vtelem/enums/primitive.py", "vtelem/classes/byte_buffer.py", "local/templates/primitive.py.j2"],
  [("validation", "enums/primitive.py BasePrimitive.validate"), ("set", "classes/type_primitive.py")])

p("C09", "Identifiers are unique, dense, stable and unaffected by lookups",
  "Every successful registration of a channel, enum, type or service yields a new identifier, distinct and consecutive, which forever maps to that item and its name; registering an existing name is refused and changes nothing. Looking up unknown names or identifiers reports absence and changes nothing: counts, descriptions and later registrations are as if the lookup had not happened. The exported description always is valid JSON listing exactly the registered items under their identifiers.",
  ["histories"], "all sequences up to depth 5 over {register, re-register, look up known/unknown name/id, describe, export} for each registry kind, against a dictionary model",
  "tests register a few items and look up known ones; polluting lookups only show in later operations",
  ["vtelem/registry/__init__.py", "vtelem/registry/enum.py", "vtelem/registry/enum_retry.py", "vtelem/registry/type.py", "vtelem/registry/service.py", "vtelem/channel/registry.py", "vtelem/channel/group_registry.py", "vtelem/telemetry/environment.py"],
  [("add/get", "registry/__init__.py Registry")])

p("C10", "A refused operation leaves no trace and blocks nobody",
  "When a registration, write, command, channel-group update, time-scale change, state machine run, or removal on an environment, channel group, enum channel, time keeper, state machine or stream writer is refused or raises, the set of channels, their values, pending events and metrics are as before the call (apart from the report of failure), and every other thread can still use the object at once. In particular registering a duplicate channel, an unknown enum, an invalid initial value, writing an unknown enum value, and an error raised inside a locked group section never leave a lock held (such a section writes back what it changed before it raised).",
  ["histories", "fault_sequences", "schedules"], "every failing operation at every position in short operation sequences, each followed by use of every public operation from a second thread",
  "tests run on one thread (re-entrant locks hide a leak) and mostly discard the object after a failure",
  ["vtelem/classes/time_entity.py", "vtelem/channel/group.py", "vtelem/channel/environment.py", "vtelem/telemetry/environment.py"],
  [("lock context manager", "classes/time_entity.py OptionalRLock")])

p("C11", "Channel groups are written and sampled atomically",
  "Values written to a channel group in one update are observed together or not at all: every dispatch and every group read sees all channels of the group from the same update, whatever the interleaving of writers, readers and dispatches on different threads. Updates (one write of a group each) are applied in some order consistent with each thread's own order, and none is lost. An update containing an unacceptable value still never leaves other threads with a torn view of the acceptable part while it is being applied.",
  ["schedules"], "all schedules up to a preemption bound of 2 of 2-3 threads doing group writes, group reads, and dispatches on shared groups, scheduling points at every lock operation and every shared access",
  "tests are single-threaded for groups; a torn read needs a switch inside an update",
  ["vtelem/channel/group.py", "vtelem/channel/environment.py", "vtelem/channel/framer.py"],
  [("environment lock", "channel/group.py read/write"), ("dispatch lock", "channel/framer.py build_data_frames")])

p("C12", "Metrics account exactly for what happened, under any concurrency",
  "Whenever no operation is in progress, a metered queue's metrics satisfy elements = enqueued - dequeued = its actual length, with enqueued and dequeued equal to the number of completed puts and gets, for any number of concurrent producers and consumers, bounded or not. Environment counters (dispatches, emits, events, channels, stream frames and bytes, daemon iterations, state-machine runs) equal the number of those happenings (modulo the width of the metric). No interleaving makes a metric update fail or lose a count.",
  ["schedules", "histories"], "all schedules up to a preemption bound of 2 of 2-3 threads of put/get/dispatch/command/metric updates; all sequential histories up to depth 5",
  "tests check metrics after single-threaded use; lost updates need a preemption between read and write",
  ["vtelem/classes/metered_queue.py", "vtelem/channel/environment.py", "vtelem/telemetry/environment.py", "vtelem/daemon/__init__.py", "vtelem/stream/writer.py"],
  [("metric_add", "channel/environment.py"), ("metered queue", "classes/metered_queue.py")])

p("C13", "Dispatched frames reach the writer exactly once, and nothing deadlocks",
  "Every frame produced by a dispatch is obtained exactly once, in production order per dispatching thread, by the consumers of the frame queue, also when the queue is full and the dispatcher has to wait for a consumer. No combination of dispatches, channel writes, metric registration, queue consumption and stream additions on concurrent threads deadlocks. A waiting dispatcher does not prevent other threads from reading, writing or registering.",
  ["schedules"], "all schedules up to a preemption bound of 2 of dispatcher, consumer/writer and registering threads around a full frame queue",
  "the queue bound (256) and the lock overlap are never reached together in a test",
  ["vtelem/channel/environment.py", "vtelem/channel/framer.py", "vtelem/classes/metered_queue.py", "vtelem/stream/writer.py"],
  [("bounded frame queue", "classes/metered_queue.py"), ("environment lock", "channel/environment.py dispatch")])

p("C14", "Stream writers deliver every frame to every live sink, in order",
  "Each frame put to a stream writer is written completely and exactly once, in order, to every sink attached from before it is processed until it is detached, as documented with or without length prefix; queue clients likewise receive each frame once, in order. A sink that fails is detached and closed exactly once and never written again, and neither it nor a sink being attached, detached or closed concurrently affects what other sinks receive or stops the writer. Frame and byte counters equal what was written (a write that failed may or may not be counted). A frame already being written may still reach a sink that is detached meanwhile, and a full queue of a client delays the writer until there is room or the client is removed.",
  ["schedules", "fault_sequences", "histories"], "all add/remove/frame/fault sequences up to depth 5 with 3 sinks failing at every write and flush position; schedules up to preemption bound 2 of writer against add/remove threads",
  "tests use healthy files and one closed one; faults at a given frame and concurrent detach are not produced",
  ["vtelem/stream/writer.py", "vtelem/stream/__init__.py", "vtelem/classes/udp_client_manager.py"],
  [("frame_handle", "stream/writer.py"), ("error handle", "stream/writer.py")])

p("C15", "Daemon lifecycle operations follow one state machine on every schedule",
  "A daemon is in exactly one of idle, starting, running, paused, stopping or error; start succeeds only from idle, pause only from running, unpause only from paused, stop only from running, and every other request is refused without effect. At most one worker is ever active, no iteration of the task begins after a pause (besides one already under way) or a completed stop, the initialiser runs once per start/stop cycle, a stop is not reported successful while the worker goes on, and a successful stop leaves the daemon idle and startable. Concurrent start, stop, pause, unpause and restart requests never leave it stuck, never raise, and never run two workers.",
  ["schedules", "histories"], "all operation sequences to depth 5 and all schedules up to a preemption bound of 2 of two controlling threads and the worker under virtual time",
  "tests issue operations in one fixed order on one controlling thread with real sleeps",
  ["vtelem/daemon/__init__.py", "vtelem/daemon/synchronous.py", "vtelem/daemon/queue.py", "vtelem/enums/daemon.py"],
  [("state and thread", "daemon/__init__.py DaemonBase"), ("loop", "daemon/synchronous.py Daemon.run")])

p("C16", "Every command gets exactly one answer and none can kill the service",
  "Commands are executed in the order they were queued, by each handler registered for them once, and each caller receives exactly one answer per handler, saying whether it succeeded. An unknown, malformed or failing command, of whatever shape, is answered with failure, changes nothing, and later commands are still executed and answered. An operation on a list of daemons is carried out on every known one and reports failure if any failed. Asking for help lists exactly the registered commands.",
  ["inputs", "histories", "schedules"], "all sequences up to length 4 over an alphabet of valid, unknown, malformed, raising commands (all JSON shapes for each field), from one or two submitting threads",
  "tests submit well-formed commands and a few unknown ones",
  ["vtelem/daemon/command_queue.py", "vtelem/daemon/queue.py", "vtelem/factories/daemon_manager.py", "vtelem/factories/telemetry_environment.py"],
  [("elem_handle", "daemon/command_queue.py")])

p("C17", "Only permitted channel commands take effect",
  "A command changes a channel only if the channel exists, is commandable, is identified consistently (name and identifier agree when both are given), and the value is acceptable for its type or, for enum channels, one of its enumeration's names; then the channel holds exactly that value (or the sum) afterwards. Whether values of merely equal kinds (booleans for integers, floats for identifiers) are taken is left open. Any other command is refused and changes no channel. Metrics and other non-commandable channels can never be changed by a command.",
  ["inputs", "histories"], "the product of all command field alphabets (name, id, operation, value kinds) against environments with commandable, non-commandable, enum, metric channels, in sequences up to depth 3",
  "tests issue a few good commands and a few bad ones",
  ["vtelem/channel/environment.py", "vtelem/telemetry/environment.py", "vtelem/factories/telemetry_environment.py"],
  [("channel command handler", "factories/telemetry_environment.py")])

p("C18", "Daemon dependencies are honoured for every dependency graph",
  "For every acyclic dependency relation, starting all of them (directly or by command) starts every dependency before its dependents and each daemon once, whatever the registration order; a daemon whose dependency fails to start is not started, one already running counts as started, and an operation on a single named daemon acts on that one only. Performing an operation on all reports overall success only if every individual operation succeeded. Name lookups of unknown daemons report absence, change nothing, and duplicate registrations are refused without effect.",
  ["configurations", "histories", "fault_sequences"], "all labelled DAGs on up to 4 daemons, all registration orders, all sets of failing daemons, all operation sequences to depth 3",
  "tests use one chain",
  ["vtelem/daemon/manager.py", "vtelem/factories/daemon_manager.py"],
  [("perform_stack", "daemon/manager.py")])

p("C19", "Kept time advances only with real time, scaled, and is shared consistently",
  "A time keeper's time never goes backwards while its source does not, and advances between updates by the elapsed source time multiplied by the scale in force during it. After every update all attached environments report exactly the keeper's time, including environments attached later or attached concurrently. Scale changes are accepted only when not negative, take effect from then on, and scaled sleeping waits the corresponding source time (at scale zero, until the scale changes).",
  ["histories", "schedules"], "all sequences to depth 6 over {advance source, iterate, scale to several values including 0 and negative, attach, sleep}; schedules of attach/scale against the keeper",
  "the test advances a few fixed steps",
  ["vtelem/classes/time_keeper.py", "vtelem/classes/time_entity.py"],
  [("iteration", "classes/time_keeper.py")])

p("C20", "State machines only move along accepted transitions and count them",
  "A state machine changes state only to the state its current state's run named, only if that state exists, the current state allows leaving for it and it allows being entered from it; otherwise it stays. Leave and enter hooks are called once per attempted transition with the right peer and data, and the reported states and the run and transition counters equal what happened. Concurrent runs from several threads are each atomic.",
  ["histories", "configurations", "schedules"], "all machines on 3 states with all veto combinations, all run/goto sequences to depth 4; schedules up to preemption bound 2 of two threads",
  "tests walk one machine on one thread",
  ["vtelem/classes/state.py", "vtelem/classes/state_machine.py"],
  [("run", "classes/state_machine.py")])

p("C21", "File clients deliver every recorded frame once, as it is written",
  "Reading a telemetry file while it grows yields every well-formed frame exactly once and in order, whatever the growth steps cut, whatever reads return, and whatever maximum number of frames is configured (a total per task, counting delivered frames, which may be raised later). Truncated tails are delivered once completed and undecodable frames do not affect their neighbours. A fixed file ends after its last frame, having delivered all of them.",
  ["histories", "inputs", "configurations"], "all cut positions of files of up to 4 frames (some undecodable), all maximum-frame settings, all interleavings of append and read steps",
  "tests read one complete file and one live file at one cut",
  ["vtelem/client/file.py", "vtelem/client/__init__.py", "vtelem/frame/processor.py"],
  [("process_raw_frames", "client/file.py")])

p("C22", "The HTTP service answers every request once, correctly framed",
  "A request for a registered method and path runs exactly that handler with the decoded query and body parameters and answers with its content, type and exact byte length; HEAD gets the same headers without a body; anything else (the service knows GET, HEAD and POST) is answered with an error status. Whatever earlier requests did (unknown paths or methods, failing handlers, malformed bodies), the set of listed paths is exactly the registered ones and later requests are answered. Form bodies deliver every submitted part or field unchanged.",
  ["inputs", "histories"], "all request sequences to depth 3 over methods, paths, bodies and content types on one or several connections, all part/field sets up to 3 from a small alphabet",
  "tests issue a few well-formed requests",
  ["vtelem/classes/http_request_mapper.py", "vtelem/daemon/http.py", "vtelem/factories/telemetry_server.py"],
  [("_handle", "classes/http_request_mapper.py"), ("get_post_request_data", "classes/http_request_mapper.py")])

p("C23", "Serializable objects and enumerations survive a JSON round trip",
  "Loading the JSON form of a user enumeration or other serializable object yields an equal object with the same default, names and values, and loading what it writes is the identity. An object that violates its schema is rejected (raises or is not valid), and a rejected or partial load never yields a usable object. An enumeration's names and values are inverse to each other, and looking up unknown names fails without changing the enumeration.",
  ["inputs", "histories"], "all enumerations over small name/value alphabets, all lookups sequences to depth 3, all schema-violating mutations of one field",
  "tests round-trip one enumeration",
  ["vtelem/classes/serdes.py", "vtelem/classes/user_enum.py", "vtelem/schema/manager.py", "vtelem/registry/enum.py"],
  [("UserEnum", "classes/user_enum.py")])

p("C24", "Stream and client bookkeeping matches exactly the clients connected",
  "Stream identifiers handed out are unique for the life of a writer and refer to the sink they were given for; after any sequence of adding, removing, failing and re-adding clients the set of served clients is exactly those added and not yet removed or failed, and each removed client's resources are closed exactly once. Removing an unknown or already removed client is reported and harmless. Queue, UDP, TCP and websocket clients leave nothing behind on disconnect, and clients with nothing to send for a while stay served and do not hold up others.",
  ["histories", "fault_sequences"], "all add/remove/fail/frame sequences to depth 5 with up to 3 clients of each kind over stand-in sockets",
  "tests add and remove a client once",
  ["vtelem/stream/writer.py", "vtelem/classes/udp_client_manager.py", "vtelem/daemon/tcp_telemetry.py", "vtelem/daemon/websocket_telemetry.py", "vtelem/stream/__init__.py"],
  [("add_stream/remove_stream", "stream/writer.py")])

p("C25", "Telemetry decoded by a remote client equals what the server published",
  "A client given the server's exported registries and byte stream, over any transport chunking, reconstructs exactly the sequence of channel values, enum names and change events the server published, with their times. Times are those of the millisecond, 32-bit floats of single precision. This holds as channels and enums are added, rates change and metrics are enabled, provided the description was exported after registration, and each run of a socket client ends with exactly one end marker after its last frame.",
  ["histories", "inputs"], "all short server histories (register, write, advance, dispatch) composed with writer, length-prefixed stream cut at chosen positions, client processor and decoder built from the exported JSON",
  "tests check the stages separately or one run of the whole with random timing",
  ["vtelem/telemetry/environment.py", "vtelem/stream/writer.py", "vtelem/client/__init__.py", "vtelem/client/tcp.py", "vtelem/parsing/encapsulation.py"],
  [("export/import", "registry/__init__.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
