From 4bc3df1d4154cacd2a6bb24f9a7c91b965888d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 01/91] fix: load fragments of every message of a type

The directory of a message type was overwritten by the directory of its
first message, so a cache holding two messages of one type failed to load.
---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..49c28e0 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -97,15 +97,15 @@ class MessageCache(DataCache, MessageDispatcher):
         # load data for every message type
         for mtype in os.listdir(fragment_dir):
             type_data = self.fragment_data[int(mtype)]
-            curr = os.path.join(fragment_dir, mtype)
+            mtype_dir = os.path.join(fragment_dir, mtype)
 
             # load data for all crc's from this message type
-            for crc in os.listdir(curr):
+            for crc in os.listdir(mtype_dir):
                 crc_int = int(crc)
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                curr = os.path.join(mtype_dir, crc)
 
                 # load all fragments for this message's crc
                 for fragment in os.listdir(curr):
-- 
2.43.0


From 5e8b1faf2b1962eff74471dcfba8a724672e8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 02/91] fix: account for message fragments by index and verify
 completed messages

A repeated fragment was counted as another one, which completed messages too
early (and failed), and a count restored from disk could disagree with the
fragments actually there. Completion now requires every fragment and a
matching checksum, also for messages loaded from disk.
---
 vtelem/message/cache.py | 55 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 49c28e0..07f93d8 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -9,6 +9,7 @@ from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
 # internal
+from vtelem.classes.byte_buffer import crc as crc32
 from vtelem.classes.data_cache import DataCache
 from vtelem.frame.fields import to_parsed
 from vtelem.types.frame import FrameType, MessageType, ParsedFrame
@@ -76,6 +77,15 @@ class MessageCache(DataCache, MessageDispatcher):
             self.fragment_data[mtype.value] = {}
 
         self.load_fragments(self.fragment_dir)
+
+        # don't trust messages that aren't entirely present on disk
+        for mtype in MessageType:
+            for crc, message in self.data[str(mtype.value)].items():
+                if message["complete"]:
+                    message["complete"] = self.verify(
+                        mtype, int(crc), message["fragments"]
+                    )
+
         self.service_all_callbacks()
 
     def service_all_callbacks(self) -> None:
@@ -131,6 +141,17 @@ class MessageCache(DataCache, MessageDispatcher):
         with open(path, "wb") as frag:
             frag.write(data)
 
+    def verify(self, mtype: MessageType, crc: int, total: int) -> bool:
+        """
+        Determine if all fragments of a message are present and match the
+        message's checksum.
+        """
+
+        fragments = self.fragment_data[mtype.value].get(crc, {})
+        if any(i not in fragments for i in range(total)):
+            return False
+        return crc == crc32(b"".join(fragments[i] for i in range(total)))
+
     def complete(self, mtype: MessageType) -> List[int]:
         """Get complete messages (by checksum) for a given type."""
 
@@ -196,24 +217,28 @@ class MessageCache(DataCache, MessageDispatcher):
             crc_data["number"] = message.number
             return
 
-        # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        # store this message fragment if we don't have it (a fragment loaded
+        # from disk may also have been written only partially)
+        fragments = self.fragment_data[message.type.value].get(message.crc, {})
+        if fragments.get(message.fragment_index) != message.data:
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+            fragments = self.fragment_data[message.type.value][message.crc]
+        crc_data["fragments"] = len(fragments)
+
+        # mark this message as complete if we now have all of the fragments
+        if self.verify(message.type, message.crc, message.total_fragments):
+            crc_data["fragments"] = message.total_fragments
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+
+            # service message consumers
+            full_message = self.content(message.type, message.crc)
+            assert full_message is not None
+            self.service_callbacks(
+                message.type, full_message[0], full_message[1]
+            )
 
 
 @contextmanager
-- 
2.43.0


From 07457ae0873fb8e7311e43f19936929a4561ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 03/91] fix: leave a cleaned message cache empty and usable

Cleaning removed the storage of every message type (so the next frame raised)
and left the fragments behind.
---
 vtelem/message/cache.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 07f93d8..14f3825 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
@@ -69,12 +70,7 @@ class MessageCache(DataCache, MessageDispatcher):
 
         self.fragment_data: dict = {}
         self.fragment_dir = cache_dir + "_fragments"
-
-        for mtype in MessageType:
-            mtype_str = str(mtype.value)
-            if mtype_str not in self.data:
-                self.data[mtype_str] = {}
-            self.fragment_data[mtype.value] = {}
+        self.initialize_types()
 
         self.load_fragments(self.fragment_dir)
 
@@ -88,6 +84,21 @@ class MessageCache(DataCache, MessageDispatcher):
 
         self.service_all_callbacks()
 
+    def initialize_types(self) -> None:
+        """Ensure that storage for every message type is present."""
+
+        for mtype in MessageType:
+            self.data.setdefault(str(mtype.value), {})
+            self.fragment_data.setdefault(mtype.value, {})
+
+    def clean(self) -> None:
+        """Clean the cache contents, including message fragments."""
+
+        super().clean()
+        shutil.rmtree(self.fragment_dir, ignore_errors=True)
+        self.fragment_data = {}
+        self.initialize_types()
+
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
 
-- 
2.43.0


From b64990a90596258ec8d36010e03624a27ce1e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 04/91] fix: write cache files atomically

A process that died while writing left a truncated file, which made every
following attempt to open the cache fail.
---
 vtelem/classes/data_cache.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/data_cache.py b/vtelem/classes/data_cache.py
index 7374f14..2ad07d5 100644
--- a/vtelem/classes/data_cache.py
+++ b/vtelem/classes/data_cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a simple cache for arbitrary data.
 # built-in
 import os
 import shutil
+from tempfile import TemporaryDirectory
 from typing import List
 
 # third-party
@@ -41,7 +42,14 @@ class DataCache:
     def write(self) -> None:
         """Write cache contents to disk."""
 
-        ARBITER.encode_directory(self.cache_dir, self.data, "yaml")
+        # replace files only once they're completely written
+        cache_dir = os.path.abspath(self.cache_dir)
+        with TemporaryDirectory(dir=os.path.dirname(cache_dir)) as temp_dir:
+            ARBITER.encode_directory(temp_dir, self.data, "yaml")
+            for name in sorted(os.listdir(temp_dir)):
+                os.replace(
+                    os.path.join(temp_dir, name), os.path.join(cache_dir, name)
+                )
 
     def clean(self) -> None:
         """Clean the cache contents from disk."""
-- 
2.43.0


From f82e1d1524b69e0a49d66a877a2285d6ec13e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 05/91] fix: serialize an empty message into one frame

An empty message resulted in no frames at all, so it was never received.
---
 vtelem/message/framer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..9d72582 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -53,6 +53,9 @@ class MessageFramer(Framer):
         to_frame = len(message)
         total_frames, per_frame = frames_required(frame, to_frame)
 
+        # an empty message still needs a frame
+        total_frames = max(total_frames, 1)
+
         base_params = MessageFrame.create_fields(
             {
                 "message_type": message_type.value,
@@ -68,7 +71,6 @@ class MessageFramer(Framer):
         frame_start = 0
         total_bytes = 0
         for idx in range(total_frames):
-            assert to_frame
             base_params["fragment_index"].set(idx)
             frame_size = min(to_frame, per_frame)
             frame.initialize(
-- 
2.43.0


From 8226ecf10241054744b36d000fef87641dc1b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 06/91] fix: wrap message numbers and refuse messages with too
 many fragments

Values which do not fit their field were dropped silently: messages were sent
under number 0, or with a total of zero fragments that no receiver completes.
---
 vtelem/frame/message.py  | 2 +-
 vtelem/message/framer.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..4d09283 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name])
             result[field.name] = prim
         return result
 
diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index 9d72582..bcf6302 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -7,6 +7,7 @@ from json import JSONEncoder, dumps
 from typing import Dict, Sequence, Tuple, Type
 
 # internal
+from vtelem.classes import DEFAULTS
 from vtelem.classes.serdes import ObjectData, Serializable
 from vtelem.frame.framer import Framer
 from vtelem.frame.message import MessageFrame, frames_required
@@ -66,6 +67,7 @@ class MessageFramer(Framer):
             }
         )
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= DEFAULTS["id"].value.max + 1
 
         frames = []
         frame_start = 0
-- 
2.43.0


From 07408bf8e6de1487c78a745d40fb8ef17a958c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 07/91] fix: resynchronise after an oversized frame size

The rejected size was kept, so chunks too short to hold a frame size were
discarded over and over and frames following the bad one got lost.
---
 vtelem/frame/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..397049c 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -37,6 +37,7 @@ class FrameProcessor:
         # clear buffer state if we get an unreasonable value
         if self.size > mtu:
             self.buffer.reset()
+            self.size = 0
             self.size_stale = True
 
     def process(
-- 
2.43.0


From 5bb741d43eafb381ffa61fea8d003d4bd22a458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 08/91] fix: reject malformed frames instead of raising

A truncated frame, an unknown frame type or an unknown channel raised in the
decoder, which ended the thread of the client that received it.
---
 vtelem/parsing/encapsulation.py | 20 ++++++++++++--------
 vtelem/parsing/frames.py        |  3 +++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..cd9fa2d 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -57,16 +57,20 @@ def decode_frame(
     """Unpack a frame from an array of bytes."""
 
     buf = ByteBuffer(cast(bytearray, data), False, size)
-    app_id, header = parse_frame_header(buf, expected_id)
+    try:
+        app_id, header = parse_frame_header(buf, expected_id)
 
-    if header is None:
-        assert expected_id is not None
-        LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
-        return None
+        if header is None:
+            assert expected_id is not None
+            LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
+            return None
 
-    result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
-        header, buf, channel_registry
-    )
+        result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
+            header, buf, channel_registry
+        )
+    except (AssertionError, ValueError) as exc:
+        LOG.error("malformed frame of %d bytes: %s", size, exc)
+        return None
 
     footer = parse_frame_footer(buf)
     if footer.crc is not None:
diff --git a/vtelem/parsing/frames.py b/vtelem/parsing/frames.py
index a10acad..71e59fb 100644
--- a/vtelem/parsing/frames.py
+++ b/vtelem/parsing/frames.py
@@ -37,6 +37,7 @@ def parse_data_frame(
     for _ in range(header.size):
         chan = {"id": buf.read(DEFAULTS["id"])}
         chan["channel"] = registry.get_item(chan["id"])
+        assert chan["channel"] is not None
         assert not chan["channel"].is_stream
         obj["channels"].append(chan)
 
@@ -59,6 +60,7 @@ def parse_event_frame(
     for _ in range(header.size):
         event = {"id": buf.read(DEFAULTS["id"])}
         event["channel"] = registry.get_item(event["id"])
+        assert event["channel"] is not None
         assert not event["channel"].is_stream
         obj["events"].append(event)
 
@@ -93,6 +95,7 @@ def parse_stream_frame(
 
     obj = {"id": buf.read(DEFAULTS["id"])}
     obj["channel"] = registry.get_item(obj["id"])
+    assert obj["channel"] is not None
     assert obj["channel"].is_stream
     obj["index"] = buf.read(DEFAULTS["count"])
     obj["data"] = buf.read_bytes(header.size * obj["channel"].size())
-- 
2.43.0


From 1e5b4926b5e1758cc87f6d39fe5b7d353814a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 09/91] fix: keep registry lookups from adding entries

Looking up an unknown name or identifier inserted it, so it showed up in the
description (or made describing fail) and broke exporting enums.
---
 vtelem/registry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
-- 
2.43.0


From bd6f3a32862e4d3d383bf4dcaef4e2adf8cf9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 10/91] fix: refuse 32-bit floats too large to encode

A value beyond the range of a 32-bit float was accepted and then made
every dispatch of its channel raise.
---
 local/templates/primitive.py.j2 | 15 +++++++++++++++
 vtelem/enums/primitive.py       | 15 ++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/local/templates/primitive.py.j2 b/local/templates/primitive.py.j2
index aa7b140..3e282aa 100644
--- a/local/templates/primitive.py.j2
+++ b/local/templates/primitive.py.j2
@@ -6,6 +6,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+from struct import pack
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -43,6 +44,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check that a floating-point value can be encoded by a primitive."""
+
+    try:
+        pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -60,6 +71,10 @@ class Primitive(Enum):
         *integer_bounds({{item["bytes"]}}, {{item["signed"]}}),
         integer_can_hold,
     )
+  {% elif item["name"] == "float" %}
+    {{item["name"]|upper}} = BasePrimitive(
+        "{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}}, validate=float_can_hold
+    )
   {% else %}
     {{item["name"]|upper}} = BasePrimitive("{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}})
   {% endif %}
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..6bbfc10 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+from struct import pack
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check that a floating-point value can be encoded by a primitive."""
+
+    try:
+        pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,7 +138,9 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
+    FLOAT = BasePrimitive(
+        "f", float, 4, "float", True, validate=float_can_hold
+    )
     DOUBLE = BasePrimitive("d", float, 8, "double", True)
 
 
-- 
2.43.0


From a04448633dc9e6aa74c95241cf2d9379379eb5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 11/91] fix: keep enum lookups from changing enumerations

Looking up an unknown name added it to the enumeration, so that it was
listed afterwards, and exporting a conflicting enumeration added a
mapping for the type it conflicts with.
---
 vtelem/classes/user_enum.py | 4 ++--
 vtelem/registry/enum.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..5dd05be 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -103,7 +103,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
diff --git a/vtelem/registry/enum.py b/vtelem/registry/enum.py
index 4f31e73..cb994eb 100644
--- a/vtelem/registry/enum.py
+++ b/vtelem/registry/enum.py
@@ -76,7 +76,7 @@ class EnumRegistry(Registry[UserEnum]):
                 # determine if this enum has already been registered
                 curr_id = registry.get_id(enum_data.name)
                 if curr_id is not None:
-                    expected_id = self.data["global_mappings"][curr_id]
+                    expected_id = self.data["global_mappings"].get(curr_id, -1)
                     if expected_id != enum_id:
                         log_str = (
                             "couldn't register '%s', type has value "
-- 
2.43.0


From 8cdce53a55e3b66bbe0fe1139ac2be03704866f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 12/91] fix: refuse duplicate names in the serializable enum
 registry

The check looked at the wrong mapping, so a second enumeration of the
same name took over the identifier of the first one.
---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..cdcd459 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enum_data
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From b4c452dc5525369a0d7a9cc0327ff7ed4c143bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 13/91] fix: describe channel groups as JSON

Describing the group registry raised once a group existed, so the
server could not export its registries.
---
 vtelem/channel/group_registry.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index f0208a8..9397d74 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -4,6 +4,7 @@ vtelem - Allows channel groups to be managed by a single entity.
 
 # built-in
 from contextlib import contextmanager
+from json import JSONEncoder
 from typing import Any, Dict, Iterator
 
 # internal
@@ -13,6 +14,17 @@ from vtelem.registry import Registry
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
+class ChannelGroupEncoder(JSONEncoder):
+    """A JSON encoder for channel groups."""
+
+    def default(self, o) -> dict:
+        """Implement serialization for channel groups."""
+
+        assert isinstance(o, ChannelGroup)
+        channels = {name: chan["id"] for name, chan in o.channels.items()}
+        return {"name": o.name, "channels": channels}
+
+
 class ChannelGroupRegistry(Registry[ChannelGroup]):
     """A class for managing an arbitrary number of channel groups."""
 
@@ -22,6 +34,11 @@ class ChannelGroupRegistry(Registry[ChannelGroup]):
         super().__init__("channel_groups")
         self.env = env
 
+    def describe(self, indented: bool = False) -> str:
+        """Describe the channel-group registry."""
+
+        return self.describe_raw(indented, ChannelGroupEncoder)
+
     def create_group(self, name: str) -> int:
         """Add a new, named channel group."""
 
-- 
2.43.0


From 9f415b1857eea8a8b607dcc9dfd62f620bdeaf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 14/91] fix: refuse enums named like a type before registering
 them

Such an enum was left registered although adding it failed, and every
later registration of an enum failed as well.
---
 vtelem/telemetry/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..8930448 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -189,6 +189,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From 70955a1dfb66e4c32e46a245be5a94c2217eb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 15/91] fix: release optional locks when the locked section
 raises

An exception inside the section left the lock held, so that every other
thread blocked for ever.
---
 vtelem/classes/time_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..cacc716 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -38,9 +38,9 @@ class OptionalRLock(AbstractContextManager):
         return self.item
 
     def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+        """Release the lock."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From 6af1a91d0d2f3bdb61fd7f2f487f888c14a04a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 16/91] fix: refuse a duplicate channel before capturing its
 initial value

The refused channel left an event behind, which was then attributed to
the channel already registered by that name.
---
 vtelem/channel/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..5afc18a 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -205,6 +205,7 @@ class ChannelEnvironment(TimeEntity):
         """
 
         with self.lock:
+            assert not self.has_channel(name)
             queue = None if not track_change else self.event_queue
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
-- 
2.43.0


From 7c44a34f435b961fd7182971f10460abe4aed864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 17/91] fix: validate enum channels before registering them

A channel with an unknown enumeration or initial value was left
registered although adding it failed.
---
 vtelem/telemetry/environment.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 8930448..1907987 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,19 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
-        new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
-        )
         enum_type = self.enum_registry.get_id(enum_name)
         assert enum_type is not None
-        self.enum_channel_types[new_chan] = enum_type
+        value = None
         if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            value = (enum_def.get_value(initial[0]), initial[1])
+
+        with self.lock:
+            new_chan = self.add_channel(
+                name, DEFAULTS["enum"], rate, track_change, value, commandable
+            )
+            self.enum_channel_types[new_chan] = enum_type
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From eb6e37e41f78b6ef1110dc43ba6cabbfc11b6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 18/91] fix: write all or nothing of a refused channel-group
 update

An unknown channel or enum value left the channels before it written.
---
 vtelem/channel/group.py         | 10 +++++++---
 vtelem/telemetry/environment.py | 13 ++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..53f7a5f 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -120,10 +120,14 @@ class ChannelGroup:
         """Write the values into the environment."""
 
         with self.env.lock:
+            # resolve everything first, so that nothing is written if part
+            # of this update is refused
+            updates = []
             for name, value in values.items():
                 assert name in self.channels
                 chan = self.channels[name]
                 if chan["is_enum"]:
-                    self.env.set_enum_now(chan["id"], value)
-                else:
-                    self.env.set_now(chan["id"], value)
+                    value = self.env.enum_channel_value(chan["id"], value)
+                updates.append((chan["id"], value))
+            for chan_id, value in updates:
+                self.env.set_now(chan_id, value)
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 1907987..fc486fa 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -161,13 +161,20 @@ class TelemetryEnvironment(ChannelEnvironment):
         assert enum_def is not None
         return enum_def.get_str(self.get_value(chan_id))
 
-    def set_enum_now(self, channel_id: int, data: str) -> bool:
-        """Set an enum channel with the provided value, assign time."""
+    def enum_channel_value(self, channel_id: int, data: str) -> int:
+        """Get the integer value of a String for an enum channel."""
 
         enum_type = self.enum_channel_types[channel_id]
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
-        return self.set_now(channel_id, enum_def.get_value(data))
+        return enum_def.get_value(data)
+
+    def set_enum_now(self, channel_id: int, data: str) -> bool:
+        """Set an enum channel with the provided value, assign time."""
+
+        return self.set_now(
+            channel_id, self.enum_channel_value(channel_id, data)
+        )
 
     def add_from_enum(self, enum_class: Type[IntEnum]) -> int:
         """Add an enumeration from an enum class."""
-- 
2.43.0


From 8528b33c5fed49caf97bc41457ae65ad9d640da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 19/91] fix: count queue elements when they are added and
 removed

---
 vtelem/classes/metered_queue.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..a36787b 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -41,24 +41,22 @@ class MeteredQueue(Queue):
             initial,
         )
 
-    def get(self, block: bool = True, timeout: float = None) -> Any:
-        """Dequeue an element."""
+    def _get(self) -> Any:
+        """Remove an element (the queue's own lock is held)."""
 
-        result = super().get(block, timeout)
+        result = super()._get()
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", -1, time)
         self.env.metric_add(f"{self.name}.total_dequeued", 1, time)
         return result
 
-    def put(
-        self, item: Any, block: bool = True, timeout: float = None
-    ) -> None:
-        """Enqueue an element."""
+    def _put(self, item: Any) -> None:
+        """Add an element (the queue's own lock is held)."""
 
+        super()._put(item)
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
 
 
 def create(
-- 
2.43.0


From 572180d6cd798a804293c016e7057844baaba26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 20/91] fix: make metric updates and registrations atomic

---
 vtelem/channel/environment.py   | 19 ++++++++++++-------
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 5afc18a..2de9e78 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,7 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+import threading
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -58,6 +59,7 @@ class ChannelEnvironment(TimeEntity):
         self.write_crc = True
 
         self.metrics: Optional[Dict[str, int]] = None
+        self.metrics_lock = threading.Lock()
         self.event_queue = EventQueue()
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
@@ -111,11 +113,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
@@ -149,7 +152,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.set(data, time)
+            with self.metrics_lock:
+                assert chan.set(data, time)
 
     def metric_add(self, name: str, data: Any, time: float = None) -> None:
         """Add a value to a metric channel."""
@@ -157,7 +161,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.add(data, time)
+            with self.metrics_lock:
+                assert chan.add(data, time)
 
     def set_channel_rate(self, chan_id: int, rate: float) -> None:
         """Set the update-rate of a channel."""
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index fc486fa..c7d0be6 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -124,11 +124,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From c54cf3f9c19cea2473b5ddc3dfd839b57b89b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 21/91] fix: publish daemon metrics in the order they change

---
 vtelem/daemon/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..7713b61 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -211,7 +211,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -219,7 +219,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -227,7 +227,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From 16aec3d7e4b86032e561416e1b9ea9668d156894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 22/91] fix: publish daemon states in the order they change

---
 vtelem/daemon/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 7713b61..8a9b8a4 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -180,17 +180,17 @@ class DaemonBase(TimeEntity):
             transition = old_state != state
             self.state = state
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
-
             # set the metric channel
-            if self.env is not None:
+            if transition and self.env is not None:
                 self.env.set_enum_metric(
                     self.get_metric_name("state"),
                     self.get_state_str(),
                     self.get_time(),
                 )
 
+        if transition:
+            self.function["state_change"](old_state, state, self.get_time())
+
         return transition
 
     def set_env_metric(
-- 
2.43.0


From a49124f572d54c07e8d5f6b2eab8d42575bba5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 23/91] fix: allow daemons on environments without metrics

---
 vtelem/telemetry/environment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index c7d0be6..b83c663 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -136,14 +136,14 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Set the value for an enumeration metric."""
 
-        assert self.metrics is not None
-        if name in self.metrics:
+        if self.metrics is not None and name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
             enum_type = self.enum_channel_types[self.metrics[name]]
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            assert chan.set(enum_def.get_value(data), time)
+            with self.metrics_lock:
+                assert chan.set(enum_def.get_value(data), time)
 
     def get_enum_metric(self, name: str) -> str:
         """Get the currently-held enum String of a metric channel by name."""
-- 
2.43.0


From 20b2343d7b8df56cb53b7b41c316bf22b696cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 24/91] fix: wrap counters at the width of their metric

---
 vtelem/channel/environment.py | 11 +++++++++--
 vtelem/daemon/__init__.py     |  8 +++++++-
 vtelem/enums/primitive.py     |  6 ++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 2de9e78..2886543 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -17,7 +17,11 @@ from vtelem.classes.event_queue import EventQueue
 from vtelem.classes.metered_queue import MeteredQueue
 from vtelem.classes.time_entity import TimeEntity
 from vtelem.classes.type_primitive import TypePrimitive
-from vtelem.enums.primitive import Primitive
+from vtelem.enums.primitive import (
+    INTEGER_PRIMITIVES,
+    Primitive,
+    wrap_integer,
+)
 from vtelem.frame.channel import ChannelFrame
 from vtelem.parsing.encapsulation import ParsedFrame, decode_frame
 from vtelem.registry import Registry
@@ -162,7 +166,10 @@ class ChannelEnvironment(TimeEntity):
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
             with self.metrics_lock:
-                assert chan.add(data, time)
+                data += chan.get()
+                if chan.type in INTEGER_PRIMITIVES and isinstance(data, int):
+                    data = wrap_integer(chan.type.value, data)
+                assert chan.set(data, time)
 
     def set_channel_rate(self, chan_id: int, rate: float) -> None:
         """Set the update-rate of a channel."""
diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 8a9b8a4..42a6335 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -16,7 +16,11 @@ from vtelem.classes import DEFAULTS
 from vtelem.classes.time_entity import TimeEntity
 from vtelem.classes.user_enum import from_enum
 from vtelem.enums.daemon import DaemonOperation, DaemonState, str_to_operation
-from vtelem.enums.primitive import Primitive
+from vtelem.enums.primitive import (
+    INTEGER_PRIMITIVES,
+    Primitive,
+    wrap_integer,
+)
 from vtelem.names import class_to_snake
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -204,6 +208,8 @@ class DaemonBase(TimeEntity):
                 self.env.add_metric(
                     metric_name, prim, self.function["track_metric_changes"]
                 )
+            if prim in INTEGER_PRIMITIVES and isinstance(value, int):
+                value = wrap_integer(prim.value, value)
             self.env.set_metric(metric_name, value, self.get_time())
 
     def reset_metric(self, name: str, val: int = 0) -> None:
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index 6bbfc10..099d261 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -49,6 +49,12 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def wrap_integer(prim: BasePrimitive, val: int) -> int:
+    """Wrap a value into the range of an integer primitive."""
+
+    return prim.min + (val - prim.min) % (prim.max - prim.min + 1)
+
+
 def float_can_hold(prim: BasePrimitive, val: float) -> bool:
     """Check that a floating-point value can be encoded by a primitive."""
 
-- 
2.43.0


From 599f4476ecf8b9350c8220dfa198f6e152b1bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:18 +0000
Subject: [PATCH 25/91] fix: enqueue dispatched frames without holding the
 environment

---
 vtelem/channel/environment.py | 49 ++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 2886543..3beb8e6 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -4,9 +4,11 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 
 # built-in
 from collections import defaultdict
+from contextlib import contextmanager
 import logging
+from queue import Queue
 import threading
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, Iterator, List, Optional, Tuple
 
 # internal
 from vtelem.channel import Channel
@@ -68,6 +70,7 @@ class ChannelEnvironment(TimeEntity):
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
         self.frame_queue: MeteredQueue = MeteredQueue("frame", self)
+        self.dispatch_lock = threading.RLock()
         self.log_data: dict = defaultdict(lambda: 0.0)
 
     @property
@@ -229,12 +232,28 @@ class ChannelEnvironment(TimeEntity):
         self.metric_add("channel_count", 1)
         return result[1]
 
+    @contextmanager
+    def staged_frames(self) -> Iterator[Queue]:
+        """
+        Provide a queue for frames built while the environment is locked. They
+        are enqueued for output once it isn't, because that may have to wait.
+        """
+
+        with self.dispatch_lock:
+            queue: Queue = Queue()
+            try:
+                with self.lock:
+                    yield queue
+            finally:
+                while not queue.empty():
+                    self.frame_queue.put(queue.get())
+
     def dispatch(self, time: float, should_log: bool = True) -> int:
         """Dispatch events and channel emissions."""
 
-        with self.lock:
-            data = self.dispatch_data(time)
-            events = self.dispatch_events(time)
+        with self.staged_frames() as queue:
+            data = self.dispatch_data(time, queue)
+            events = self.dispatch_events(time, queue)
             self.metric_add("dispatch_count", 1)
 
         total = data[0] + events[0]
@@ -274,21 +293,31 @@ class ChannelEnvironment(TimeEntity):
 
         return decode_frame(self.channel_registry, data, size, expected_id)
 
-    def dispatch_events(self, time: float) -> Tuple[int, int]:
+    def dispatch_events(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
+        if queue is None:
+            with self.staged_frames() as queue:
+                return self.dispatch_events(time, queue)
+
         result = self.framer.build_event_frames(
-            time, self.event_queue, self.frame_queue, self.write_crc
+            time, self.event_queue, queue, self.write_crc
         )
         self.metric_add("events_captured", result[1], time)
         return result
 
-    def dispatch_data(self, time: float) -> Tuple[int, int]:
+    def dispatch_data(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        result = self.framer.build_data_frames(
-            time, self.frame_queue, self.write_crc
-        )
+        if queue is None:
+            with self.staged_frames() as queue:
+                return self.dispatch_data(time, queue)
+
+        result = self.framer.build_data_frames(time, queue, self.write_crc)
         self.metric_add("emits_captured", result[1], time)
         return result
 
-- 
2.43.0


From 49745e73777d0c3576dfc58a26a310affbd37835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 26/91] fix: serialize channel writes so that changes stay in
 order

---
 vtelem/channel/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 3beb8e6..039522f 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -138,7 +138,9 @@ class ChannelEnvironment(TimeEntity):
 
         chan = self.channel_registry.get_item(channel_id)
         assert chan is not None
-        return chan.set(data, self.get_time())
+        with self.lock:
+            result = chan.set(data, self.get_time())
+        return result
 
     def get_value(self, chan_id: int) -> Any:
         """Get the current value of a channel, by integer identifier."""
-- 
2.43.0


From a7a8317ebe6bc4560729640cdfe4d8744142e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 27/91] fix: keep the stream writer running when streams fail
 or are closed

---
 vtelem/stream/writer.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..89a3905 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -84,18 +84,13 @@ class StreamWriter(QueueDaemon):
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except (OSError, ValueError) as exc:
                         LOG.error(
-                            msg,
-                            stream.name,
+                            "stream '%s' (%d) error writing %d bytes: %s",
+                            getattr(stream, "name", stream),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
 
@@ -103,16 +98,18 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        stream.name,
+                        getattr(stream, "name", stream),
                         stream_id,
                     )
 
-                    # signal parent that their stream may be broken
-                    if self.error_handle is not None:
+                    # signal parent that their stream may be broken, unless
+                    # somebody else removed it in the meantime
+                    if (
+                        self.remove_stream(stream_id)
+                        and self.error_handle is not None
+                    ):
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
-
             # add to queues
             for queue in queues:
                 queue.put(frame)
-- 
2.43.0


From ce57da68113dc3e90b4abca105f198523f420171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 28/91] fix: write the remainder of partially accepted frames

---
 vtelem/stream/writer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 89a3905..a6acb1a 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -38,6 +38,16 @@ LOG = logging.getLogger(__name__)
 Stream = Union[BinaryIO, BytesIO]
 
 
+def write_all(stream: Stream, data: Union[bytes, bytearray]) -> None:
+    """Write all of some data, streams may accept only a part of it at once."""
+
+    while data:
+        count = stream.write(data)
+        if not count:
+            raise OSError(f"{len(data)} bytes were not accepted")
+        data = data[count:]
+
+
 class StreamWriter(QueueDaemon):
     """
     Implements a daemon for writing frames to an arbitrary number of client
@@ -79,7 +89,7 @@ class StreamWriter(QueueDaemon):
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
-                        assert stream.write(array) == size
+                        write_all(stream, array)
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
                         self.increment_metric("stream_writes")
-- 
2.43.0


From fb73f3e5ae23230a49369e98b7b8b42d32a879d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 29/91] fix: forget the attributes of removed streams

---
 vtelem/stream/writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index a6acb1a..5030588 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -85,12 +85,16 @@ class StreamWriter(QueueDaemon):
                 with self.lock:
                     queues = list(self.queues.values())
                     streams = self.streams.copy()
+                    flush = {
+                        stream_id: self.stream_attrs[stream_id]["flush"]
+                        for stream_id in streams
+                    }
 
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
                         write_all(stream, array)
-                        if self.stream_attrs[stream_id]["flush"]:
+                        if flush[stream_id]:
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
@@ -229,6 +233,7 @@ class StreamWriter(QueueDaemon):
                 del self.streams[stream_id]
                 closer = self.stream_closers[stream_id]
                 del self.stream_closers[stream_id]
+                del self.stream_attrs[stream_id]
         if closer is not None and call_closer:
             closer()
         if result:
-- 
2.43.0


From e6d68e4326cb99f5f27a5706bee96af45fdb3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 30/91] fix: don't wait for space in the queues of removed
 clients

---
 vtelem/stream/writer.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 5030588..f88eb0b 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -8,8 +8,9 @@ from contextlib import contextmanager
 from io import BytesIO
 import logging
 from pathlib import Path
-from queue import Queue
+from queue import Full, Queue
 from threading import Semaphore
+import time
 from typing import (
     Any,
     BinaryIO,
@@ -37,6 +38,9 @@ from vtelem.telemetry.environment import TelemetryEnvironment
 LOG = logging.getLogger(__name__)
 Stream = Union[BinaryIO, BytesIO]
 
+# the interval for checking if a full queue has space
+QUEUE_POLL = 0.01
+
 
 def write_all(stream: Stream, data: Union[bytes, bytearray]) -> None:
     """Write all of some data, streams may accept only a part of it at once."""
@@ -83,7 +87,7 @@ class StreamWriter(QueueDaemon):
                 array, size = frame.with_size_header(frame_size)
 
                 with self.lock:
-                    queues = list(self.queues.values())
+                    queues = self.queues.copy()
                     streams = self.streams.copy()
                     flush = {
                         stream_id: self.stream_attrs[stream_id]["flush"]
@@ -125,9 +129,9 @@ class StreamWriter(QueueDaemon):
                         self.error_handle(stream_id)
 
             # add to queues
-            for queue in queues:
-                queue.put(frame)
-            self.increment_metric("queue_writes", len(queues))
+            for queue_id, queue in queues.items():
+                if self.enqueue(queue_id, queue, frame):
+                    self.increment_metric("queue_writes")
 
         super().__init__(name, frame_queue, frame_handle, env, time_keeper)
 
@@ -161,6 +165,23 @@ class StreamWriter(QueueDaemon):
         self.increment_metric("queue_count")
         return result
 
+    def enqueue(self, queue_id: int, queue: Queue, frame: Any) -> bool:
+        """
+        Add a frame to a queue, waiting for space only as long as the queue
+        isn't removed.
+        """
+
+        while True:
+            with self.lock:
+                if queue_id not in self.queues:
+                    return False
+                try:
+                    queue.put_nowait(frame)
+                    return True
+                except Full:
+                    pass
+            time.sleep(QUEUE_POLL)
+
     def registered_queue(
         self,
         name: str = None,
-- 
2.43.0


From 6f36d35c329551a4b6bf7c511836799bb99ea89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 31/91] fix: forget client queues when they are removed

---
 vtelem/daemon/websocket_telemetry.py |  2 +-
 vtelem/stream/writer.py              | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index d2f068e..1e52777 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -56,7 +56,7 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
                     except WebSocketException:
                         should_continue = False
             finally:
-                self.writer.remove_queue(queue_id, False)
+                self.remove_client_queue(queue_id, False)
 
         WebsocketDaemon.__init__(
             self, name, None, address, env, time_keeper, telem_handle
diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index f88eb0b..956b70a 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -302,6 +302,16 @@ class QueueClientManager(LockEntity):
             self.active_client_queues.append(queue_id)
         return queue_id, frame_queue
 
+    def remove_client_queue(
+        self, queue_id: int, inject_none: bool = True
+    ) -> bool:
+        """Remove the frame queue of a client that disconnected."""
+
+        with self.lock:
+            if queue_id in self.active_client_queues:
+                self.active_client_queues.remove(queue_id)
+        return self.writer.remove_queue(queue_id, inject_none)
+
     def close_clients(self) -> int:
         """
         Attempt to remove all active client-writing queues from the stream
@@ -311,9 +321,11 @@ class QueueClientManager(LockEntity):
 
         closed = 0
         with self.lock:
-            for queue_id in self.active_client_queues:
-                if self.writer.remove_queue(queue_id):
-                    closed += 1
+            queue_ids = self.active_client_queues
+            self.active_client_queues = []
+        for queue_id in queue_ids:
+            if self.writer.remove_queue(queue_id):
+                closed += 1
         return closed
 
 
-- 
2.43.0


From 901ef081164f36dcbc0d2a2bf6bffc0b7507a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:28 +0000
Subject: [PATCH 32/91] fix: leave failing streams of others alone

---
 vtelem/classes/udp_client_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..1030021 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,6 +40,9 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
+                # other parties may use this writer too
+                if stream_id not in self.clients:
+                    return
                 sock, sock_file = self.clients[stream_id]
                 del self.clients[stream_id]
             name = sock.getsockname()
-- 
2.43.0


From 8a6a16d5145649ee2f580e8f19cadde0b8524d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:28 +0000
Subject: [PATCH 33/91] fix: only remove streams of udp clients as udp clients

---
 vtelem/classes/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 1030021..5ef5d67 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -102,5 +102,5 @@ class UdpClientManager(LockEntity):
         """Remove a client connection by integer identifier, closes it."""
 
         with self.lock:
-            if self.writer.remove_stream(sock_id):
+            if sock_id in self.clients and self.writer.remove_stream(sock_id):
                 self.closer(sock_id)
-- 
2.43.0


From c777cbe86b1b2a18d07618e1d7042c9c31f51d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:28 +0000
Subject: [PATCH 34/91] fix: close udp clients whatever error closing them
 gives

---
 vtelem/classes/udp_client_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 5ef5d67..e06802a 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -49,7 +49,8 @@ class UdpClientManager(LockEntity):
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pragma: no cover
+                # what was buffered can't be delivered anymore
                 pass
             finally:
                 sock.close()
-- 
2.43.0


From f4db4371fa8895b5726d35a24cfb3c56ff0d27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:28 +0000
Subject: [PATCH 35/91] fix: forget tcp clients that disconnect

---
 vtelem/daemon/tcp_telemetry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..648faab 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -51,6 +51,8 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
             sem.acquire()  # pylint:disable=consider-using-with
         finally:
             writer.remove_stream(stream_id, False)
+            with daemon.lock:
+                daemon.client_sems.pop(stream_id, None)
             LOG.info(
                 "%s:%d disconnected",
                 self.client_address[0],
@@ -89,10 +91,9 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
             self.server.shutdown()
             with self.lock:
-                closed_clients = list(self.client_sems.keys())
-            for client in closed_clients:
-                self.client_sems[client].release()
-                del self.client_sems[client]
+                for sem in self.client_sems.values():
+                    sem.release()
+                self.client_sems.clear()
 
         self.function["inject_stop"] = stopper
         self.server.daemon = self  # type: ignore
-- 
2.43.0


From fca07679aafbee6b8ec8635aef2519cbca284cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:36 +0000
Subject: [PATCH 36/91] fix: refuse tcp clients once the daemon is stopping

---
 vtelem/daemon/tcp_telemetry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 648faab..4cd358d 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -13,6 +13,7 @@ from typing import Any, Dict, Tuple
 # internal
 from vtelem.client.tcp import TcpClient
 from vtelem.daemon import DaemonBase
+from vtelem.enums.daemon import DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -34,7 +35,6 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         )
 
         daemon: TcpTelemetryDaemon = self.server.daemon  # type: ignore
-        daemon.increment_metric("clients")
 
         # make sure our stream has a name attribute
         stream: BytesIO = self.wfile  # type: ignore
@@ -43,8 +43,12 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         # add the socket to the stream writer
         writer: StreamWriter = daemon.writer
         with daemon.lock:
+            # nothing would signal us anymore when the daemon has stopped
+            if daemon.state in (DaemonState.STOPPING, DaemonState.IDLE):
+                return
             stream_id, sem = writer.add_semaphore_stream(stream)
             daemon.client_sems[stream_id] = sem
+            daemon.increment_metric("clients")
 
         # wait for something to signal us to close the connection
         try:
-- 
2.43.0


From 3cea49e402004be47cbcd4c390d4d74fe5a19346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 37/91] fix: refuse the 'none' operation on daemons instead of
 raising

---
 vtelem/daemon/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 42a6335..99e60d4 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -123,7 +123,11 @@ class DaemonBase(TimeEntity):
 
         # set up the actions data
         default: dict = defaultdict(
-            lambda: {"action": lambda: False, "takes_args": False}
+            lambda: {
+                "action": lambda: False,
+                "takes_args": False,
+                "skip_if_state": [],
+            }
         )
         self.daemon_ops: Dict[DaemonOperation, dict] = default
         self.daemon_ops[DaemonOperation.START] = {
-- 
2.43.0


From d96b98c46c083d05fd08e6ffbe65b267e1af764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 38/91] fix: don't hide key errors of stop hooks

---
 vtelem/daemon/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 99e60d4..676e737 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -357,11 +357,8 @@ class DaemonBase(TimeEntity):
                 if self.set_state(DaemonState.STOPPING):
                     should_stop = True
 
-        if should_stop:
-            try:
-                self.function["inject_stop"]()
-            except KeyError:
-                pass
+        if should_stop and "inject_stop" in self.function:
+            self.function["inject_stop"]()
 
         return should_stop
 
-- 
2.43.0


From ffc5f9bb24c3dd1666d0f3852fb840a463627aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 39/91] fix: stop daemons by the worker they were running

A start that succeeds while a stop completes had its thread replaced or
lost by the stop, raising in either and leaving later stops to fail.
---
 vtelem/daemon/__init__.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 676e737..da66c45 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -302,17 +302,18 @@ class DaemonBase(TimeEntity):
             if self.state != DaemonState.IDLE:
                 return False
 
-            self.thread = threading.Thread(
+            thread = threading.Thread(
                 target=self.run_harness,
                 args=args,
                 kwargs=kwargs,
                 name=self.name,
             )
+            self.thread = thread
             self.reset_metric("count")
             self.increment_metric("starts")
             assert self.set_state(DaemonState.STARTING)
 
-        self.thread.start()
+        thread.start()
         return True
 
     @contextmanager
@@ -350,17 +351,25 @@ class DaemonBase(TimeEntity):
         Determine if we're in the correct state to stop, mutate state if so.
         """
 
+        return self.stop_worker() is not None
+
+    def stop_worker(self) -> Optional[threading.Thread]:
+        """
+        Begin stopping if we're in the correct state to do so, returns the
+        thread that is stopping.
+        """
+
         # make sure we're in the correct state to attempt a stop
-        should_stop = False
+        thread = None
         with self.lock:
             if self.state == DaemonState.RUNNING:
                 if self.set_state(DaemonState.STOPPING):
-                    should_stop = True
+                    thread = self.thread
 
-        if should_stop and "inject_stop" in self.function:
+        if thread is not None and "inject_stop" in self.function:
             self.function["inject_stop"]()
 
-        return should_stop
+        return thread
 
     def restart(self, *args, **kwargs) -> bool:
         """Attempt to restart this daemon."""
@@ -372,16 +381,17 @@ class DaemonBase(TimeEntity):
     def stop(self, timeout: int = DEFAULT_TIMEOUT) -> bool:
         """Attempt to stop the daemon."""
 
-        if not self.begin_stop():
+        thread = self.stop_worker()
+        if thread is None:
             return False
 
         # if we should stop, wait for the thread to be joined
-        assert self.thread is not None
-        self.thread.join(timeout=timeout)
+        thread.join(timeout=timeout)
+        stopped = not thread.is_alive()
         with self.lock:
-            self.thread = None
-            self.increment_metric(
-                "stops" if self.state == DaemonState.IDLE else "errors"
-            )
+            # another start may have succeeded since the thread ended
+            if self.thread is thread:
+                self.thread = None
+            self.increment_metric("stops" if stopped else "errors")
 
         return True
-- 
2.43.0


From 05d5f8d80a8275a2faee9112de069b3d672422ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 40/91] fix: report daemons which don't stop in time as not
 stopped

---
 vtelem/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index da66c45..7f0ab56 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -394,4 +394,4 @@ class DaemonBase(TimeEntity):
                 self.thread = None
             self.increment_metric("stops" if stopped else "errors")
 
-        return True
+        return stopped
-- 
2.43.0


From 12d8a537bd9fe3df7a486773b8dc90579b46cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 41/91] fix: allow workers to stop their own daemon

---
 vtelem/daemon/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 7f0ab56..7e8f627 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -385,8 +385,10 @@ class DaemonBase(TimeEntity):
         if thread is None:
             return False
 
-        # if we should stop, wait for the thread to be joined
-        thread.join(timeout=timeout)
+        # if we should stop, wait for the thread to be joined (a worker that
+        # stops its own daemon ends after this)
+        if thread is not threading.current_thread():
+            thread.join(timeout=timeout)
         stopped = not thread.is_alive()
         with self.lock:
             # another start may have succeeded since the thread ended
-- 
2.43.0


From 2656563b1842a5e740cb9c61e30e02d20104015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:14 +0000
Subject: [PATCH 42/91] fix: wait for booted daemons to be running

A daemon booted for a shorter time than its worker took to start was
refused the stop and left running.
---
 vtelem/daemon/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 7e8f627..26fbe28 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -73,6 +73,7 @@ class DaemonBase(TimeEntity):
         self.function["track_metric_changes"] = False
         self.function["metrics_data"] = defaultdict(lambda: 0)
         self.thread: Optional[threading.Thread] = None
+        self.running = threading.Event()
 
         # assign a 'sleep' function for general use
         self.function["sleep"] = time.sleep
@@ -254,6 +255,7 @@ class DaemonBase(TimeEntity):
 
         try:
             if self.set_state(DaemonState.RUNNING):
+                self.running.set()
                 self.run(*args, **kwargs)
         except KeyboardInterrupt:
             LOG.warning("%s: interrupted", self.name)
@@ -275,6 +277,7 @@ class DaemonBase(TimeEntity):
 
         try:
             assert self.start(*args, **kwargs)
+            self.running.wait()
             yield
         finally:
             stop_result = self.stop()
@@ -309,6 +312,7 @@ class DaemonBase(TimeEntity):
                 name=self.name,
             )
             self.thread = thread
+            self.running.clear()
             self.reset_metric("count")
             self.increment_metric("starts")
             assert self.set_state(DaemonState.STARTING)
-- 
2.43.0


From 7967cfdc6a15b07763e55ef76d9b77948de714bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 43/91] fix: don't register unknown commands when they're
 received

Commands whose name isn't a string are malformed, names which aren't
hashable ended the daemon.
---
 vtelem/daemon/command_queue.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..f36076e 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,14 +49,16 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if not isinstance(elem, dict) or not isinstance(
+                elem.get("command"), str
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            if not self.handlers.get(elem["command"]):
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
-- 
2.43.0


From 012d4279bea7fbbd0ef26ee1b6d4158c56d4aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 44/91] fix: log command data that can't be encoded as JSON

---
 vtelem/daemon/command_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f36076e..a0f3988 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -91,7 +91,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From 28f63e409a73668955d795ba4b5e711187a2bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 45/91] fix: answer commands whose handlers raise instead of
 ending the daemon

---
 vtelem/daemon/command_queue.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index a0f3988..0f18cb6 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -77,7 +77,17 @@ class CommandQueueDaemon(QueueDaemon):
             # execute command
             handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                try:
+                    result, message = handler(cmd_data)
+                except Exception as exc:  # pylint: disable=broad-except
+                    LOG.exception(
+                        "%s: command '%s' raised", self.name, elem["command"]
+                    )
+                    result = False
+                    message = (
+                        f"command '{elem['command']}' raised "
+                        f"{type(exc).__name__}: {exc}"
+                    )
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
-- 
2.43.0


From 7acb4a0593eb21c004b4d603d23ea141552df50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 46/91] fix: don't end the command daemon when a result
 callback raises

---
 vtelem/daemon/command_queue.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 0f18cb6..2cb8719 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -40,6 +40,17 @@ class CommandQueueDaemon(QueueDaemon):
 
         self.handlers: HandlersType = defaultdict(list)
 
+        def answer(
+            callback: Optional[ResultCbType], result: bool, message: str
+        ) -> None:
+            """Report a command's result to whoever wants to know about it."""
+
+            if callback is not None:
+                try:
+                    callback(result, message)
+                except Exception:  # pylint: disable=broad-except
+                    LOG.exception("%s: a result callback raised", self.name)
+
         def elem_handle(data: Tuple[Any, Optional[ResultCbType]]) -> None:
             """Handle an individual command from the queue."""
 
@@ -55,8 +66,7 @@ class CommandQueueDaemon(QueueDaemon):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                answer(cmd_cb, False, err)
                 return None
             if not self.handlers.get(elem["command"]):
                 err = (
@@ -65,8 +75,7 @@ class CommandQueueDaemon(QueueDaemon):
                 )
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                answer(cmd_cb, False, err)
                 return None
 
             # provide data as a defaultdict no matter what
@@ -88,10 +97,8 @@ class CommandQueueDaemon(QueueDaemon):
                         f"command '{elem['command']}' raised "
                         f"{type(exc).__name__}: {exc}"
                     )
-                if result_cb is not None:
-                    result_cb(result, message)
-                if cmd_cb is not None:
-                    cmd_cb(result, message)
+                answer(result_cb, result, message)
+                answer(cmd_cb, result, message)
                 status = "success" if result else "failure"
                 self.increment_metric(f"{status}_count")
 
-- 
2.43.0


From 013c2bf24904955b18f623cee3a6c6e441ae3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 47/91] fix: refuse daemon commands with malformed names before
 acting

---
 vtelem/factories/daemon_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/factories/daemon_manager.py b/vtelem/factories/daemon_manager.py
index b358253..ce9dbb9 100644
--- a/vtelem/factories/daemon_manager.py
+++ b/vtelem/factories/daemon_manager.py
@@ -34,6 +34,8 @@ def create_daemon_manager_commander(
 
             # allow 'all' to be a special key
             daemons = cmd["daemons"]
+            if not all(isinstance(name, str) for name in daemons):
+                return False, f"'daemons' must be names for '{oper}'"
             if "all" in daemons:
                 daemons = list(manager.states().keys())
 
-- 
2.43.0


From 2dede6bb147260c3527027f5ddf61eed0e3c2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 48/91] fix: require both host and port to add a udp client

---
 vtelem/factories/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/factories/udp_client_manager.py b/vtelem/factories/udp_client_manager.py
index 991a423..ea277cd 100644
--- a/vtelem/factories/udp_client_manager.py
+++ b/vtelem/factories/udp_client_manager.py
@@ -16,7 +16,7 @@ from vtelem.types.command_queue_daemon import ResultCbType
 def add_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     """Attempt to add a new client."""
 
-    if "host" not in data and "port" not in data:
+    if "host" not in data or "port" not in data:
         return False, "must provide 'host' and 'port'"
 
     result = manager.add_client(Host(data["host"], data["port"]))
-- 
2.43.0


From b2e3341834e990d74ab453c14da22869cbf78fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 49/91] fix: answer websocket commands that can't be decoded

---
 vtelem/factories/websocket_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index eb4a289..e123924 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -37,7 +37,7 @@ def commandable_websocket_daemon(
             cmd_result = daemon.execute(json.loads(message))
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
-        except json.decoder.JSONDecodeError as exc:
+        except (ValueError, RecursionError) as exc:
             result["message"] = str(exc)
 
         await websocket.send(json.dumps(result))
-- 
2.43.0


From 6cd95fdc716401d7ca016c6b413cdbc228bc5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 50/91] fix: don't interleave channel commands with other
 writes

Increments read and write their channel, writes in between were lost.
---
 vtelem/factories/telemetry_environment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vtelem/factories/telemetry_environment.py b/vtelem/factories/telemetry_environment.py
index 1bb2056..0433e14 100644
--- a/vtelem/factories/telemetry_environment.py
+++ b/vtelem/factories/telemetry_environment.py
@@ -133,9 +133,10 @@ def create_channel_commander(
             return False, f"operation '{cmd['operation']}' not supported"
 
         # return the result of the operation
-        return supported_ops[cmd["operation"]](
-            (chan, chan_id), cmd, env.get_time(), env
-        )
+        with env.lock:
+            return supported_ops[cmd["operation"]](
+                (chan, chan_id), cmd, env.get_time(), env
+            )
 
     ops_str = ", ".join(f"'{val}'" for val in supported_ops)
     daemon.register_consumer(
-- 
2.43.0


From 0ef5de18396c0ae88f65d3dbb8020cbabbf74a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 51/91] fix: refuse to command enum channels to values their
 enum doesn't have

---
 vtelem/telemetry/environment.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index b83c663..daa4492 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -5,7 +5,7 @@ vtelem - An environment that supports management of telemetry.
 # built-in
 from collections import defaultdict
 from enum import IntEnum
-from typing import Dict, List, Optional, Tuple, Type
+from typing import Any, Dict, List, Optional, Tuple, Type
 
 # internal
 from vtelem.channel import Channel
@@ -67,6 +67,21 @@ class TelemetryEnvironment(ChannelEnvironment):
                 (self.type_registry.count(), self.get_time()),
             )
 
+    def command_channel_id(self, chan_id: int, value: Any) -> bool:
+        """
+        Attempt to command a channel by its integer identifier, enum channels
+        only take values of their enum.
+        """
+
+        if self.is_enum_channel(chan_id):
+            enum_def = self.enum_registry.get_item(
+                self.enum_channel_types[chan_id]
+            )
+            assert enum_def is not None
+            if value not in enum_def.strings.values():
+                return False
+        return super().command_channel_id(chan_id, value)
+
     def command_enum_channel_id(self, chan_id: int, value: str) -> bool:
         """Attempt to command an enum-based channel by integer identifier."""
 
-- 
2.43.0


From f14caeaae395e7b1093d76355380083bc57a66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:16 +0000
Subject: [PATCH 52/91] fix: send each frame as its own datagram to udp clients

---
 vtelem/classes/udp_client_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index e06802a..16536c8 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -75,8 +75,10 @@ class UdpClientManager(LockEntity):
         sock = create_udp_socket(host)
         mtu = discover_mtu(sock)
         mtu -= 60 + 8  # subtract ip and udp header space
-        sock_file = cast(socket.socket, sock).makefile("wb")
-        sock_file.flush()
+
+        # each write (of a frame) needs to be one datagram, a buffer would
+        # combine them to datagrams larger than the mtu
+        sock_file = cast(socket.socket, sock).makefile("wb", buffering=0)
 
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
-- 
2.43.0


From 5478e623c5ea78a6ea47b18a40e6e5de009d2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 53/91] fix: don't register unknown daemons by looking them up

---
 vtelem/daemon/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..b38e425 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
-- 
2.43.0


From 70dab627798d95e4cf5888f5328226d0f4fadddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 54/91] fix: don't start daemons whose dependencies can't be
 started

---
 vtelem/daemon/manager.py | 64 ++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index b38e425..2ab0472 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -54,59 +54,53 @@ class DaemonManager(LockEntity):
             self.depends_on[name] = depends_on
         return True
 
-    def perform_stack(
+    def perform_ordered(
         self,
-        name_stack: List[str],
-        executed: List[str],
+        name: str,
         results: Dict[str, bool],
         operation: DaemonOperation,
         *args,
         **kwargs
-    ) -> None:
+    ) -> bool:
         """
-        Execute an operation on daemons, respecting the dependency order.
+        Execute an operation on a daemon (once), after its dependencies.
         """
 
-        if not name_stack:
-            return
+        if name not in results:
+            # a daemon can't depend on itself
+            results[name] = False
+
+            deps = [
+                self.perform_ordered(dep, results, operation, *args, **kwargs)
+                for dep in self.depends_on.get(name) or []
+            ]
 
-        curr = name_stack.pop()
-        if curr not in executed:
+            # don't start a daemon without its dependencies
+            if all(deps) or operation != DaemonOperation.START:
+                results[name] = self.perform(name, operation, *args, **kwargs)
 
-            # determine if we can execute yet
-            to_execute: List[str] = []
-            curr_deps = self.depends_on[curr]
-            if curr_deps:
-                for dep in curr_deps:
-                    if dep not in executed:
-                        to_execute.append(dep)
+        return results[name]
 
-            # if we have dependencies, put them in front of us, otherwise
-            # run against the current entry
-            if to_execute:
-                name_stack = to_execute + [curr] + name_stack
-            else:
-                results[curr] = self.perform(curr, operation, *args, **kwargs)
-                executed.append(curr)
+    def perform_each(
+        self, operation: DaemonOperation, *args, **kwargs
+    ) -> Dict[str, bool]:
+        """
+        Attempt to perform an action on all daemons, respecting the dependency
+        order. Returns the result for each.
+        """
 
-        self.perform_stack(
-            name_stack, executed, results, operation, *args, **kwargs
-        )
+        with self.lock:
+            results: Dict[str, bool] = {}
+            for name in list(self.daemons.keys()):
+                self.perform_ordered(name, results, operation, *args, **kwargs)
+        return results
 
     def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
         """Attempt to perform an action on all daemons."""
 
         failures = 0
         with self.lock:
-            results: Dict[str, bool] = {}
-            self.perform_stack(
-                list(self.daemons.keys()),
-                [],
-                results,
-                operation,
-                *args,
-                **kwargs
-            )
+            results = self.perform_each(operation, *args, **kwargs)
             for result_key, result_val in results.items():
                 if not result_val:
                     LOG.error(
-- 
2.43.0


From 9afac5ce358e569cf44ccebb369a9d8097d89e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 55/91] fix: respect dependencies when commanding all daemons

---
 vtelem/factories/daemon_manager.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vtelem/factories/daemon_manager.py b/vtelem/factories/daemon_manager.py
index ce9dbb9..e59d496 100644
--- a/vtelem/factories/daemon_manager.py
+++ b/vtelem/factories/daemon_manager.py
@@ -4,12 +4,17 @@ vtelem - A module for creating functions based on a daemon manager.
 
 # built-in
 import json
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 # internal
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.manager import DaemonManager
-from vtelem.enums.daemon import DaemonOperation, is_operation, operation_str
+from vtelem.enums.daemon import (
+    DaemonOperation,
+    is_operation,
+    operation_str,
+    str_to_operation,
+)
 from vtelem.types.command_queue_daemon import ResultCbType
 
 
@@ -36,12 +41,16 @@ def create_daemon_manager_commander(
             daemons = cmd["daemons"]
             if not all(isinstance(name, str) for name in daemons):
                 return False, f"'daemons' must be names for '{oper}'"
+            results: Dict[str, bool] = {}
+            bool_results: List[bool] = []
             if "all" in daemons:
-                daemons = list(manager.states().keys())
+                operation = str_to_operation(oper)
+                assert operation is not None
+                results = manager.perform_each(operation)
+                bool_results = list(results.values())
+                daemons = []
 
             # execute all of the requested commands
-            results = {}
-            bool_results: List[bool] = []
             for daemon_name in daemons:
                 result = manager.perform_str(daemon_name, oper)
                 bool_results.append(result)
-- 
2.43.0


From e5d4e8aa3456e6865e46d264c50f3d0d04c5e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 56/91] fix: don't require the websocket command service

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From 95d0c48dbd5de2ec9d92b6ae790d321a7de394be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 57/91] fix: refuse applications with the name of a daemon

---
 vtelem/telemetry/server.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index b2150ad..d9c60da 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -5,6 +5,7 @@ vtelem - An interface for creating telemetered applications.
 # built-in
 from collections import defaultdict
 from contextlib import contextmanager
+import logging
 import socket
 import threading
 from typing import Any, Dict, Iterator
@@ -37,6 +38,8 @@ from vtelem.types.telemetry_server import (
     default_services,
 )
 
+LOG = logging.getLogger(__name__)
+
 
 class TelemetryServer(HttpDaemon):
     """A class for application-level telemetry integration."""
@@ -161,6 +164,11 @@ class TelemetryServer(HttpDaemon):
     ) -> bool:
         """Attempt to register a new application thread."""
 
+        # a duplicate must not affect the registered daemon (or its metrics)
+        if self.daemons.get(name) is not None:
+            LOG.error("can't register '%s', name is registered.", name)
+            return False
+
         app_data: Dict[str, Any] = defaultdict(lambda: None)
 
         def setup_caller(*_, **__) -> None:
-- 
2.43.0


From 0c32b31a07572efe75a59c5f23f47376c7ae6d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 58/91] fix: don't apply a time scale to time that has already
 elapsed

---
 vtelem/classes/time_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..6604eeb 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -71,6 +71,8 @@ class TimeKeeper(Daemon):
 
         if scalar >= 0.0:
             with self.lock:
+                # time that has elapsed already isn't scaled differently
+                self.iteration()
                 self.scalar = scalar
 
     def sleep(self, amount: float) -> None:
-- 
2.43.0


From bc037884291f88b3bfde61bff063c8bec2aa9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 59/91] fix: don't fail to sleep while time is scaled by zero

---
 vtelem/classes/time_keeper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index 6604eeb..b0a90d5 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -78,4 +78,10 @@ class TimeKeeper(Daemon):
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        # time doesn't advance while it's scaled by zero
+        scalar = self.scalar
+        while scalar == 0.0:
+            self.sleep_function(self.get_rate())
+            scalar = self.scalar
+
+        self.sleep_function(amount / scalar)
-- 
2.43.0


From 97a634a45ec6b2a363b39e605d86863f035fc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 60/91] fix: only pause and unpause running daemons to scale
 time

---
 vtelem/telemetry/server.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index d9c60da..35718df 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -199,9 +199,18 @@ class TelemetryServer(HttpDaemon):
     def scale_speed(self, scalar: float) -> None:
         """Change the time scaling for the time keeper."""
 
-        assert self.daemons.perform_all(DaemonOperation.PAUSE)
-        self.time_keeper.scale(scalar)
-        assert self.daemons.perform_all(DaemonOperation.UNPAUSE)
+        # daemons that aren't running don't need to be (un)paused
+        paused = []
+        for name in self.daemons.states():
+            daemon = self.daemons.get(name)
+            assert daemon is not None
+            if daemon.pause():
+                paused.append(daemon)
+        try:
+            self.time_keeper.scale(scalar)
+        finally:
+            for daemon in paused:
+                assert daemon.perform(DaemonOperation.UNPAUSE)
 
     def start_all(self) -> None:
         """Start everything."""
-- 
2.43.0


From c08f694512afbda31b472b7f11b04bae37d7b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 61/91] fix: run an iteration of a state machine as one step

---
 vtelem/classes/state_machine.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..79d6cf8 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -83,14 +83,13 @@ class StateMachine(LockEntity):
         states.
         """
 
-        if new_data is not None:
-            with self.lock:
+        with self.lock:
+            if new_data is not None:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
+            curr = self.states[self.current_state]
+            assert curr is not None
 
-        with self.lock:
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,14 +122,15 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
-        # increment metrics
-        if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
-                metrics_data["enter_fails"] += int(enter_failed)
-                metrics_data["exit_fails"] += int(exit_failed)
-                metrics_data["transitions"] += int(transitioned)
-                metrics_data["iterations"] += 1
+            # increment metrics
+            if self.metrics is not None:
+                with self.metrics.data() as metrics_data:
+                    metrics_data["enter_fails"] += int(enter_failed)
+                    metrics_data["exit_fails"] += int(exit_failed)
+                    metrics_data["transitions"] += int(transitioned)
+                    metrics_data["iterations"] += 1
+
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
 
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
         return (curr, actual_new)
-- 
2.43.0


From b5fea97eea568a034f2d385d8f7592f708c94d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 62/91] fix: don't lose metrics of states that are shared

---
 vtelem/classes/state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/state.py b/vtelem/classes/state.py
index 6b8ed39..2b03950 100644
--- a/vtelem/classes/state.py
+++ b/vtelem/classes/state.py
@@ -68,7 +68,7 @@ class State:
 
         # increment metrics
         if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
+            with self.metrics.env.lock, self.metrics.data() as metrics_data:
                 metrics_data["enter_attempts"] += 1
                 metrics_data["enter_successes"] += int(result)
 
@@ -83,7 +83,7 @@ class State:
 
         # increment metrics
         if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
+            with self.metrics.env.lock, self.metrics.data() as metrics_data:
                 metrics_data["iterations"] += 1
 
         return result
@@ -102,7 +102,7 @@ class State:
 
         # increment metrics
         if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
+            with self.metrics.env.lock, self.metrics.data() as metrics_data:
                 metrics_data["exit_attempts"] += 1
                 metrics_data["exit_successes"] += int(result)
 
-- 
2.43.0


From 23ef9e6d42fc2db24b3fc39d82329e1335d2ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 63/91] fix: count entering and leaving states whatever hooks
 return

---
 vtelem/classes/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/state.py b/vtelem/classes/state.py
index 2b03950..61e78c8 100644
--- a/vtelem/classes/state.py
+++ b/vtelem/classes/state.py
@@ -64,7 +64,7 @@ class State:
         if self.entering_fn is not None:
             if not self.is_initial_state:
                 assert prev_state_name != self.name
-            result = self.entering_fn(prev_state_name, data)
+            result = bool(self.entering_fn(prev_state_name, data))
 
         # increment metrics
         if self.metrics is not None:
@@ -98,7 +98,7 @@ class State:
 
         if self.leaving_fn is not None:
             assert next_state_name != self.name
-            result = self.leaving_fn(next_state_name, data)
+            result = bool(self.leaving_fn(next_state_name, data))
 
         # increment metrics
         if self.metrics is not None:
-- 
2.43.0


From faafcf023db864daf0586824e08584887140ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:16 +0000
Subject: [PATCH 64/91] fix: refuse state (machine) names whose metrics are
 taken

---
 vtelem/classes/state.py         | 21 ++++++++++-----------
 vtelem/classes/state_machine.py | 13 +++++++++----
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/vtelem/classes/state.py b/vtelem/classes/state.py
index 61e78c8..594c43d 100644
--- a/vtelem/classes/state.py
+++ b/vtelem/classes/state.py
@@ -35,17 +35,16 @@ class State:
         self.metrics: Optional[ChannelGroup] = None
         if env is not None:
             self.metrics = ChannelGroup("state." + self.name, env)
-            self.metrics.add_channel(
-                "enter_attempts", DEFAULTS["metric"], rate
-            )
-            self.metrics.add_channel(
-                "enter_successes", DEFAULTS["metric"], rate
-            )
-            self.metrics.add_channel("exit_attempts", DEFAULTS["metric"], rate)
-            self.metrics.add_channel(
-                "exit_successes", DEFAULTS["metric"], rate
-            )
-            self.metrics.add_channel("iterations", DEFAULTS["metric"], rate)
+            for metric in [
+                "enter_attempts",
+                "enter_successes",
+                "exit_attempts",
+                "exit_successes",
+                "iterations",
+            ]:
+                assert self.metrics.add_channel(
+                    metric, DEFAULTS["metric"], rate
+                ), f"duplicate state '{name}'"
         self.is_initial_state = False
 
     def __eq__(self, other) -> bool:
diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 79d6cf8..656e321 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -65,10 +65,15 @@ class StateMachine(LockEntity):
         self.metrics: Optional[ChannelGroup] = None
         if env is not None:
             self.metrics = ChannelGroup("machine." + self.name, env)
-            self.metrics.add_channel("enter_fails", DEFAULTS["metric"], rate)
-            self.metrics.add_channel("exit_fails", DEFAULTS["metric"], rate)
-            self.metrics.add_channel("transitions", DEFAULTS["metric"], rate)
-            self.metrics.add_channel("iterations", DEFAULTS["metric"], rate)
+            for metric in [
+                "enter_fails",
+                "exit_fails",
+                "transitions",
+                "iterations",
+            ]:
+                assert self.metrics.add_channel(
+                    metric, DEFAULTS["metric"], rate
+                ), f"duplicate state machine '{name}'"
 
     @contextmanager
     def data(self) -> Iterator[dict]:
-- 
2.43.0


From 76085de2c9d04862da879d0df1d9303e59c1a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 65/91] fix: deliver all frames of files up to the maximum

Only payloads that decode to a frame count towards the maximum, those that
were staged are processed before the end of the file is reported.
---
 vtelem/client/file.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..5c0db9a 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -60,18 +60,13 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
-
-        # Consume the desired number of payloads from our process list.
-        if process_count:
-            to_process = [self.to_process.pop(0) for _ in range(process_count)]
-            self.frame_count += self.handle_frames(to_process)
+        # Consume payloads from our process list, we can either process them
+        # all or we want to stop so we don't process more than was requested
+        # (only payloads that decode to a frame count).
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            self.frame_count += self.handle_frames([self.to_process.pop(0)])
 
         # Determine if we've reached the limit of desired frames, if one was
         # provided.
@@ -100,20 +95,22 @@ class FileClient(DaemonBase, TelemetryClient):
             while self.state != DaemonState.STOPPING:
                 try:
                     data = stream.read(self.mtu + frame_size.type.value.size)
-                    if not data:
-                        LOG.info("%s: reached end-of-file", self.name)
-                        self.frames.put(None)
-                        break
 
                     # Accumulate new frames to process.
-                    self.to_process.extend(
-                        self.processor.process(data, frame_size, self.mtu)
-                    )
+                    if data:
+                        self.to_process.extend(
+                            self.processor.process(data, frame_size, self.mtu)
+                        )
 
                     # Stop processing frames (and reading) if we reached the
                     # maximum desired.
                     if not self.process_raw_frames(self.task):
                         break
+
+                    if not data:
+                        LOG.info("%s: reached end-of-file", self.name)
+                        self.frames.put(None)
+                        break
                 finally:
                     pass
 
-- 
2.43.0


From d75ca497ae9382afd1ff3c5f31a7dc33b5191f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 66/91] fix: don't read data of a file again if reading fails

---
 vtelem/client/file.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 5c0db9a..0c40d6d 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -87,7 +87,8 @@ class FileClient(DaemonBase, TelemetryClient):
         """Read from the file and enqueue decoded frames."""
 
         with self.task.path.open("rb") as stream:
-            stream.seek(self.task.byte_index)
+            byte_index = self.task.byte_index
+            stream.seek(byte_index)
 
             frame_size = new_default("count")
             assert self.env is not None
@@ -95,6 +96,7 @@ class FileClient(DaemonBase, TelemetryClient):
             while self.state != DaemonState.STOPPING:
                 try:
                     data = stream.read(self.mtu + frame_size.type.value.size)
+                    byte_index += len(data)
 
                     # Accumulate new frames to process.
                     if data:
@@ -112,12 +114,10 @@ class FileClient(DaemonBase, TelemetryClient):
                         self.frames.put(None)
                         break
                 finally:
-                    pass
-
-            # Update the byte index.
-            self.task = FileDecodeTask(
-                self.task.path, stream.tell(), self.task.max_frames
-            )
+                    # Update the byte index.
+                    self.task = FileDecodeTask(
+                        self.task.path, byte_index, self.task.max_frames
+                    )
 
 
 @contextmanager
-- 
2.43.0


From 77c32f8935f49651efb58778673bfc52fa573ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 67/91] fix: read files without an environment

---
 vtelem/client/file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 0c40d6d..9bd3488 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -91,7 +91,6 @@ class FileClient(DaemonBase, TelemetryClient):
             stream.seek(byte_index)
 
             frame_size = new_default("count")
-            assert self.env is not None
 
             while self.state != DaemonState.STOPPING:
                 try:
-- 
2.43.0


From aa6d568da605394c5a857ca90add7cec19a13574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 68/91] fix: don't list unhandled requests as handled ones

---
 vtelem/classes/http_request_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..25e6c76 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -61,8 +61,8 @@ class HttpRequestMapper:
         """Retrieve a handle by request type and path."""
 
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
-- 
2.43.0


From 5d05fe59851b3aacf7686e23375aee7e972b8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 69/91] fix: register request handlers while requests are
 handled

---
 vtelem/classes/http_request_mapper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 25e6c76..4eb294c 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -43,9 +43,9 @@ class HttpRequestMapper:
             """
 
             handles: dict = {}
-            for method, handlers in self.requests.items():
+            for method, handlers in list(self.requests.items()):
                 handles[method] = []
-                for path in handlers.keys():
+                for path in list(handlers):
                     handle_inst = self.handle_data[method][path]
                     handle_data = {"path": path}
                     if handle_inst is not None:
@@ -80,13 +80,15 @@ class HttpRequestMapper:
         """
 
         path = "/" + path.lower()
-        self.requests[request_type][path] = handle
         handle_data = {}
         handle_data["Description"] = description
         handle_data["Content-Type"] = f"{response_type}; charset={charset}"
         if data is not None:
             handle_data.update(data)
+
+        # requests may be handled concurrently
         self.handle_data[request_type][path] = handle_data
+        self.requests[request_type][path] = handle
 
 
 # pylint: disable=attribute-defined-outside-init
-- 
2.43.0


From 441be42243cab152f07e5e3e7065dc3fb6105dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 70/91] fix: find request handlers by the paths they were
 registered with

---
 vtelem/classes/http_request_mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 4eb294c..45ab91b 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -60,6 +60,7 @@ class HttpRequestMapper:
     ) -> Tuple[Opt[RequestHandle], Opt[dict]]:
         """Retrieve a handle by request type and path."""
 
+        path = path.lower()
         return (
             self.requests.get(request_type, {}).get(path),
             self.handle_data.get(request_type, {}).get(path),
@@ -79,7 +80,7 @@ class HttpRequestMapper:
         A default handler for displaying the list of registered handles.
         """
 
-        path = "/" + path.lower()
+        path = "/" + path.lower().lstrip("/")
         handle_data = {}
         handle_data["Description"] = description
         handle_data["Content-Type"] = f"{response_type}; charset={charset}"
-- 
2.43.0


From c5dedd79151987ecd03266a303f12e5bc0fe7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 71/91] fix: answer requests whose handlers fail, with exact
 lengths

The length of content is a number of bytes, not of characters.
---
 vtelem/classes/http_request_mapper.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 45ab91b..a40c0c1 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -155,7 +155,14 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             return self._no_handle_response(command)
 
         # run handler
-        success, content = handle(self, data)
+        try:
+            success, content = handle(self, data)
+            body = content.encode() if success else b""
+        except Exception:  # pylint: disable=broad-except
+            LOG.exception("handling '%s' path '%s' failed", command, self.path)
+            self.send_error(HTTPStatus.INTERNAL_SERVER_ERROR)
+            self.close_connection = True
+            return None
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
@@ -168,10 +175,10 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From e66a09bbe72d52683a36aa23bd790954f968af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 72/91] fix: don't send anything after error responses

---
 vtelem/classes/http_request_mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index a40c0c1..587ccab 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -115,7 +115,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -125,7 +124,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
         self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -167,7 +165,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         if not success:
             self.send_error(status, content)
-            self.end_headers()
             self.close_connection = True
             return None
 
-- 
2.43.0


From 4e978ff3a9243dc9072c765c42de59431af3ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 73/91] fix: don't send arbitrary text in status lines and
 headers

---
 vtelem/classes/http_request_mapper.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 587ccab..8f28425 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -92,6 +92,13 @@ class HttpRequestMapper:
         self.requests[request_type][path] = handle
 
 
+def header_value(value: object) -> str:
+    """Convert a value to something that can be sent in a header."""
+
+    text = "".join(x if x.isprintable() else " " for x in str(value))
+    return text.encode("latin-1", "replace").decode("latin-1")
+
+
 # pylint: disable=attribute-defined-outside-init
 class MapperAwareRequestHandler(BaseHTTPRequestHandler):
     """A request handler that integrates with the request mapper."""
@@ -164,14 +171,14 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
+            self.send_error(status, header_value(content)[:256], content)
             self.close_connection = True
             return None
 
         self.send_response(status)
         if handle_data is not None:
             for key, value in handle_data.items():
-                self.send_header(key, value)
+                self.send_header(key, header_value(value))
         self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-- 
2.43.0


From 71d0d3e62612b2aadb293b7a08061fdd3d686187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 74/91] fix: don't drop empty fields of requests

---
 vtelem/classes/http_request_mapper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 8f28425..f9f7b3c 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -145,7 +145,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         parsed = urllib.parse.urlparse(self.path)  # type: ignore
         self.path = parsed.path
         if parsed.query:
-            data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore
+            data.update(
+                urllib.parse.parse_qs(  # type: ignore
+                    parsed.query, keep_blank_values=True
+                )
+            )
 
         if not hasattr(self.server, "mapper"):
             return self._no_mapper_response()
@@ -350,7 +354,9 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     def url_encoded_parser(request: BaseHTTPRequestHandler, _: dict) -> dict:
         """Parse url-encoded POST request data."""
         field_data = request.rfile.read(length).decode("utf-8")
-        return urllib.parse.parse_qs(field_data)  # type: ignore
+        return urllib.parse.parse_qs(  # type: ignore
+            field_data, keep_blank_values=True
+        )
 
     parsers: dict = {
         "multipart": {"form-data": form_parser},
-- 
2.43.0


From e578a32eb0af4bff30f55f64d5afdf3493736095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 75/91] fix: refuse requests with malformed bodies, read all
 other ones

---
 vtelem/classes/http_request_mapper.py | 30 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index f9f7b3c..d4e1b64 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -200,7 +200,15 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
     def do_POST(self) -> None:  # pylint: disable=invalid-name
         """Respond to a POST request."""
-        return self._handle(get_post_request_data(self))
+
+        try:
+            data = get_post_request_data(self)
+        except ValueError as exc:
+            LOG.error("invalid data for '%s': %s", self.path, exc)
+            self.send_error(HTTPStatus.BAD_REQUEST, "invalid request data")
+            self.close_connection = True
+            return None
+        return self._handle(data)
 
 
 def parse_content_type(value: str) -> Opt[dict]:
@@ -333,15 +341,14 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     assert request.command == "POST"
 
     def form_parser(
-        request: BaseHTTPRequestHandler, content_type: dict
+        _: BaseHTTPRequestHandler, content_type: dict
     ) -> dict:
         """Parse form data from a POST request. (RFC 7578)"""
 
         boundary = get_multipart_boundary(content_type)
         real_parts = []
         if boundary is not None:
-            data = request.rfile.read(length).decode("utf-8")
-            parsed = parse_multipart_data(boundary, data)
+            parsed = parse_multipart_data(boundary, body.decode("utf-8"))
 
             # this is now essentially 'lines of an http request', so we should
             # figure out the best way to parse it...
@@ -351,9 +358,9 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
 
         return {"parts": real_parts}
 
-    def url_encoded_parser(request: BaseHTTPRequestHandler, _: dict) -> dict:
+    def url_encoded_parser(_: BaseHTTPRequestHandler, __: dict) -> dict:
         """Parse url-encoded POST request data."""
-        field_data = request.rfile.read(length).decode("utf-8")
+        field_data = body.decode("utf-8")
         return urllib.parse.parse_qs(  # type: ignore
             field_data, keep_blank_values=True
         )
@@ -363,11 +370,20 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
         "application": {"x-www-form-urlencoded": url_encoded_parser},
     }
 
+    # consume all content, even if it isn't used
+    body = b""
+    if "Content-Length" in request.headers:
+        length = int(request.headers["Content-Length"])
+        if length < 0:
+            raise ValueError(f"invalid content length {length}")
+        body = request.rfile.read(length)
+        if len(body) != length:
+            raise ValueError(f"expected {length} bytes, got {len(body)}")
+
     # if the request has content, attempt to find a parser for it
     keys = ["Content-Length", "Content-Type"]
     if all(key in request.headers for key in keys):
         content_type = parse_content_type(request.headers["Content-Type"])
-        length = int(request.headers["Content-Length"])
         if content_type is not None and content_type["type"] in parsers:
             subparsers = parsers[content_type["type"]]
             if content_type["subtype"] in subparsers:
-- 
2.43.0


From 1d6070ee4726b4e27f1f485326e367a2b2de9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 76/91] fix: deliver all parts of forms unchanged

Separators can be part of quoted parameters, delimiters are entire lines and
parts don't have to be text.
---
 vtelem/classes/http_request_mapper.py | 69 +++++++++++++++------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index d4e1b64..34cf649 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -9,6 +9,7 @@ from http import HTTPStatus
 from http.server import BaseHTTPRequestHandler
 import json
 import logging
+import re
 from typing import Callable, Dict, List
 from typing import Optional as Opt
 from typing import Tuple
@@ -211,16 +212,23 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         return self._handle(data)
 
 
+def split_params(value: str) -> List[str]:
+    """Split a header field at semicolons that aren't quoted."""
+
+    items = re.findall(r'(?:[^;"]|"(?:\\.|[^"\\])*"|")+', value)
+    return [x.strip() for x in items if x.strip()]
+
+
 def parse_content_type(value: str) -> Opt[dict]:
     """Parse a 'Content-Type' header field. (RFC 2045 5.1)"""
 
-    params = [x.strip() for x in value.split(";")]
+    params = split_params(value)
     if len(params) >= 1 and "/" in params[0]:
         types = [x.strip() for x in params[0].split("/")]
         if len(types) == 2 and types[0] and types[1]:
             return {
-                "type": types[0],
-                "subtype": types[1],
+                "type": types[0].lower(),
+                "subtype": types[1].lower(),
                 "params": params[1:],
             }
 
@@ -234,14 +242,10 @@ def get_multipart_boundary(content_type: dict) -> Opt[str]:
     processing of 'multipart' MIME data.
     """
 
-    if (
-        "params" in content_type
-        and isinstance(content_type["params"], list)
-        and len(content_type["params"]) == 1
-    ):
-        boundary_raw = content_type["params"][0].split("=")
-        if len(boundary_raw) == 2 and boundary_raw[0] == "boundary":
-            return boundary_raw[1]
+    for param in content_type.get("params", []):
+        name, _, boundary = param.partition("=")
+        if name.strip().lower() == "boundary" and boundary.strip():
+            return dequote(boundary.strip())
 
     return None
 
@@ -254,7 +258,7 @@ def parse_request_lines(lines: List[str]) -> dict:
     part_data: dict = {"headers": {}, "body": []}
     headers = []
     for idx, line in enumerate(lines):
-        if line == "" and idx != 0 and idx + 1 != len(lines):
+        if line == "" and idx + 1 != len(lines):
             headers = lines[:idx]
             part_data["body"] = lines[idx + 1 :]
             break
@@ -263,7 +267,7 @@ def parse_request_lines(lines: List[str]) -> dict:
 
     # parse headers (RFC 822 3.2)
     for header in headers:
-        name_body = header.split(":")
+        name_body = header.split(":", 1)
         if len(name_body) == 2:
             name = name_body[0].strip().lower()
             body = name_body[1].strip()
@@ -295,24 +299,27 @@ def parse_multipart_data(
     where a 'part' is provided as a list of the lines it contained.
     """
 
-    delim = "--" + boundary
-    chunks = data.split(delim)
-
-    # remove leading empty element
-    if chunks and not chunks[0]:
-        chunks = chunks[1:]
+    # delimiters are entire lines (RFC 2046 5.1.1)
+    delim = re.compile(
+        f"\r\n--{re.escape(boundary)}(--)?[ \t]*(?=\r\n|\\Z)",
+    )
+    text = "\r\n" + data
 
+    # the 'terminating CRLF' of a part's last line isn't removed
     parts = []
-    if chunks:
-        # (RFC 2616 2.2)
-        parts = [x.split("\r\n") for x in chunks]
-        for idx, part in enumerate(parts):
-            # strip the 'terminating CRLF' (RFC 2047 5.1.1)
-            if part and not part[0]:
-                parts[idx] = part[1:]
+    start = None
+    for match in delim.finditer(text):
+        if start is not None:
+            parts.append(text[start : match.start()] + "\r\n")
+        start = match.end() + len("\r\n")
+        if match.group(1):
+            start = None
+            break
+    if start is not None:
+        parts.append(text[start:])
 
     # (RFC 2046 5.1)
-    return [parse_request_lines(part) for part in parts]
+    return [parse_request_lines(part.split("\r\n")) for part in parts]
 
 
 def parse_content_disposition(data: str) -> dict:
@@ -322,11 +329,11 @@ def parse_content_disposition(data: str) -> dict:
     """
 
     result = {}
-    items = [x.strip() for x in data.split(";")]
+    items = split_params(data)
     if items:
         result["type"] = items[0]
         for param in items[1:]:
-            param_split = param.split("=")
+            param_split = param.split("=", 1)
             if len(param_split) == 2:
                 key = param_split[0].strip().lower()
                 result[key] = dequote(param_split[1].strip())
@@ -348,7 +355,9 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
         boundary = get_multipart_boundary(content_type)
         real_parts = []
         if boundary is not None:
-            parsed = parse_multipart_data(boundary, body.decode("utf-8"))
+            parsed = parse_multipart_data(
+                boundary, body.decode("utf-8", "surrogateescape")
+            )
 
             # this is now essentially 'lines of an http request', so we should
             # figure out the best way to parse it...
-- 
2.43.0


From 4a6cced6640d6198198a08066c41ae05d8e43b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 77/91] fix: restart https services, accept clients while
 others connect

---
 vtelem/daemon/http.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e1d16f6..9260e79 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -130,10 +130,18 @@ class HttpDaemon(DaemonBase):
                         self.name, [self.server.server_address]
                     )
             if self.ssl_context is not None:
+                # don't close the original socket, we may be started again,
+                # or wait for a client while others can't be accepted
+                original = self.server.socket
                 with self.ssl_context.wrap_socket(
-                    self.server.socket, server_side=True
+                    original.dup(),
+                    server_side=True,
+                    do_handshake_on_connect=False,
                 ) as ssock:
                     self.server.socket = ssock
-                    self.server.serve_forever(0.1)
+                    try:
+                        self.server.serve_forever(0.1)
+                    finally:
+                        self.server.socket = original
             else:
                 self.server.serve_forever(0.1)
-- 
2.43.0


From 3f9f14aba5a20c5dce4dac3366964b6e1dd99487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:17 +0000
Subject: [PATCH 78/91] fix: answer invalid shutdown and command requests with
 errors

---
 vtelem/factories/telemetry_server.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vtelem/factories/telemetry_server.py b/vtelem/factories/telemetry_server.py
index b52d219..1a197c2 100644
--- a/vtelem/factories/telemetry_server.py
+++ b/vtelem/factories/telemetry_server.py
@@ -32,10 +32,13 @@ def register_http_handlers(
         provided_id = data["app_id"]
         if provided_id is None:
             return False, "no 'app_id' argument provided"
-        provided_id = provided_id[0]
-        if our_id.get() != int(provided_id):
+        try:
+            provided_id = int(provided_id[0])
+        except ValueError:
+            return False, f"invalid 'app_id' '{provided_id[0]}'"
+        if our_id.get() != provided_id:
             msg = "'app_id' mismatch, expected '{}' got '{}'"
-            return False, msg.format(our_id.get(), int(provided_id))
+            return False, msg.format(our_id.get(), provided_id)
         server.stop_all()
         return True, "success"
 
@@ -64,7 +67,7 @@ def register_http_handlers(
 
         # collapse list items into single values
         for key, value in data.items():
-            if isinstance(value, list):
+            if isinstance(value, list) and value:
                 data[key] = value[0]
 
         # move additional arguments to the "data" key
-- 
2.43.0


From 150e8fe7ed66bf0dee1c8188ae9f67e3c88bf45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 79/91] fix: validate loaded objects with the schema manager

---
 vtelem/classes/serdes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index 7d611e7..b64179f 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,7 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
-        return self.__class__(data, self.params)
+        return self.__class__(data, self.params, manager=self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
         """Create a serializable from a String loaded as JSON."""
-- 
2.43.0


From 2b64b9f4ead5ebf2810defecf19d746d28dbe61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 80/91] fix: don't load objects from null

---
 vtelem/classes/serdes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index b64179f..a6363f7 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,6 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
+        assert data is not None
         return self.__class__(data, self.params, manager=self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
-- 
2.43.0


From a6e7f4a151e868d5201a306ced3506317f7028f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 81/91] fix: don't drop entries of maps when coercing keys to
 integers

---
 vtelem/classes/serdes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index a6363f7..afe3c00 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -74,7 +74,9 @@ class Serializable:
     def int_keys(data: ObjectMap) -> ObjectMap:
         """Coerce keys in a map to integer."""
 
-        return {int(key): value for key, value in data.items()}
+        result: ObjectMap = {int(key): value for key, value in data.items()}
+        assert len(result) == len(data)
+        return result
 
     @classmethod
     def schema(cls, manager: SchemaManager) -> Validator:
-- 
2.43.0


From b7f172c281d0359ded4bb67af32d7548bc5592d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 82/91] fix: refuse enumerations whose values share a name

---
 vtelem/classes/user_enum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 5dd05be..373b327 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -74,7 +74,11 @@ class UserEnum(Serializable):
 
         # Maintain a reverse mapping for convenience.
         self.coerce_int_keys(["mappings"], data)
-        self.strings = reverse_map(cast(IntStrMap, data["mappings"]))
+        mappings = cast(IntStrMap, data["mappings"])
+        self.strings = reverse_map(mappings)
+
+        # Each name must belong to a single value.
+        assert len(self.strings) == len(mappings)
 
         # Set a viable default value.
         default = data["default"]
-- 
2.43.0


From 6739d5f74712cdb267d0a14be517a4fa88a7edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 83/91] fix: refuse default values that an enumeration doesn't
 have

---
 vtelem/classes/user_enum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 373b327..42a5ca5 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -60,7 +60,7 @@ def user_enum_data(
     return {
         "name": to_snake(name),
         "mappings": cast(ObjectMap, coerce_enum(values)),
-        "default": default,
+        "default": default if default is None else default.lower(),
     }
 
 
@@ -84,6 +84,7 @@ class UserEnum(Serializable):
         default = data["default"]
         val = default if default is not None else list(self.strings.keys())[0]
         assert val is not None
+        assert val.lower() in self.strings
         data["default"] = val
 
     @property
-- 
2.43.0


From 882d28d1e3943697cbc232f7917b8b2c76dbbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 84/91] fix: refuse enum registries with incomplete data

---
 vtelem/registry/enum_retry.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index cdcd459..b1206e2 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -31,12 +31,15 @@ class EnumRegistry(Serializable, LockEntity):
 
             # Load real enum objects from the data.
             self.enums: Dict[str, UserEnum] = {}
-            if self.enum_data:
-                for name in mappings.values():
-                    assert isinstance(name, str)
-                    self.enums[name] = UserEnum(
-                        self.enum_data[name], manager=self.manager
-                    )
+            for name in mappings.values():
+                assert isinstance(name, str)
+                assert name not in self.enums
+                enum = UserEnum(self.enum_data[name], manager=self.manager)
+                assert enum.name == name
+                self.enums[name] = enum
+
+            # Every enum must have an identifier.
+            assert len(self.enums) == len(self.enum_data)
 
     @property
     def enum_data(self) -> Dict[str, ObjectData]:
-- 
2.43.0


From 1cc91d27852992a1503a3b57ca7d7c6681ef8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 85/91] fix: enum registries with invalid enums aren't valid

---
 vtelem/registry/enum_retry.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index b1206e2..fade2e1 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -10,6 +10,7 @@ from typing import Dict, Type, cast
 from vtelem.classes.serdes import ObjectData, ObjectMap, Serializable, max_key
 from vtelem.classes.time_entity import LockEntity
 from vtelem.classes.user_enum import UserEnum, from_enum
+from vtelem.schema.manager import SchemaManager
 
 
 class EnumRegistry(Serializable, LockEntity):
@@ -41,6 +42,16 @@ class EnumRegistry(Serializable, LockEntity):
             # Every enum must have an identifier.
             assert len(self.enums) == len(self.enum_data)
 
+    def validate(
+        self, log: bool = True, manager: SchemaManager = None
+    ) -> bool:
+        """Validate this registry and all of the enums that it contains."""
+
+        result = super().validate(log, manager)
+        for enum in self.enums.values():
+            result = enum.validate(log, manager) and result
+        return result
+
     @property
     def enum_data(self) -> Dict[str, ObjectData]:
         """Get the mapping of enum name to underlying enum data."""
-- 
2.43.0


From e3def5fa0a911f504c6466375d834d11c0fdfa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 86/91] fix: encode enum registries while no enums are added

---
 vtelem/registry/enum_retry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index fade2e1..1c48ca6 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -4,7 +4,7 @@ vtelem - A module providing assets for managing enumerations at runtime.
 
 # built-in
 from enum import IntEnum
-from typing import Dict, Type, cast
+from typing import Dict, TextIO, Type, cast
 
 # internal
 from vtelem.classes.serdes import ObjectData, ObjectMap, Serializable, max_key
@@ -52,6 +52,12 @@ class EnumRegistry(Serializable, LockEntity):
             result = enum.validate(log, manager) and result
         return result
 
+    def json(self, stream: TextIO, indent: int = None, **dump_kwargs) -> None:
+        """Encode this registry as JSON to the provided stream."""
+
+        with self.lock:
+            super().json(stream, indent, **dump_kwargs)
+
     @property
     def enum_data(self) -> Dict[str, ObjectData]:
         """Get the mapping of enum name to underlying enum data."""
-- 
2.43.0


From 96f9aaf17422fbf8fe3c8a84d8171b68e00b56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:24 +0000
Subject: [PATCH 87/91] fix: combine frames for udp clients only up to the mtu

---
 vtelem/classes/udp_client_manager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 16536c8..fd468c3 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -76,9 +76,8 @@ class UdpClientManager(LockEntity):
         mtu = discover_mtu(sock)
         mtu -= 60 + 8  # subtract ip and udp header space
 
-        # each write (of a frame) needs to be one datagram, a buffer would
-        # combine them to datagrams larger than the mtu
-        sock_file = cast(socket.socket, sock).makefile("wb", buffering=0)
+        # each flush of the buffer is a datagram, it may not exceed the mtu
+        sock_file = cast(socket.socket, sock).makefile("wb", buffering=mtu)
 
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
-- 
2.43.0


From ab5337d3201a26acbd0110ad23d54646026893e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 88/91] fix: close the socket and end the output of socket
 clients once, when done

---
 vtelem/client/socket.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..9e7b24e 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -57,12 +57,14 @@ class SocketClient(DaemonBase, TelemetryClient):
 
         def stop_server() -> None:
             """
-            Call provided stopper, then close the socket and signal frame
-            queue that frames are over.
+            Call provided stopper, the socket is closed (and the end of frames
+            is signaled) when the reader ends.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
-            self.close()
+            try:
+                stopper()
+            except OSError as exc:
+                LOG.error("%s: %s", self.name, exc)
 
         self.function["inject_stop"] = stop_server
 
@@ -80,6 +82,14 @@ class SocketClient(DaemonBase, TelemetryClient):
     def run(self, *_, **__) -> None:
         """Read from the listener and enqueue decoded frames."""
 
+        try:
+            self.read_frames()
+        finally:
+            self.close()
+
+    def read_frames(self) -> None:
+        """Read frames until the stream ends or we're stopped."""
+
         # If an 'init' function is provided, re-initialize the socket.
         if "init" in self.function:
             self.socket = self.function["init"](self.socket)
-- 
2.43.0


From 007ef59f6315a290b3d305d8e42c47e4b22543da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 89/91] fix: don't continue frames of an earlier stream in
 socket clients

---
 vtelem/client/socket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 9e7b24e..0e978f3 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -95,6 +96,9 @@ class SocketClient(DaemonBase, TelemetryClient):
             self.socket = self.function["init"](self.socket)
             self.update_name(self.socket)
 
+        # What is left of an earlier stream isn't part of this one.
+        self.processor = FrameProcessor()
+
         frame_size = new_default("count")
         assert self.env is not None
 
-- 
2.43.0


From d67302a89755c7f7d164bfa64c40928a96b49100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:05 +0000
Subject: [PATCH 90/91] fix: don't block the event loop while websocket clients
 have no frames

---
 vtelem/daemon/websocket_telemetry.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index 1e52777..4ddd842 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -3,6 +3,7 @@ vtelem - An interface for managing websocket servers that serve telemetry data.
 """
 
 # built-in
+import asyncio
 from queue import Queue
 from typing import Any, Optional, Tuple
 
@@ -15,7 +16,7 @@ from vtelem.daemon.websocket import WebsocketDaemon
 from vtelem.frame.channel import ChannelFrame
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.stream import queue_get
-from vtelem.stream.writer import QueueClientManager, StreamWriter
+from vtelem.stream.writer import QUEUE_POLL, QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
@@ -42,19 +43,20 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             queue_id, frame_queue = self.add_client_queue(
                 Host(*websocket.remote_address)
             )
-            should_continue = True
 
             try:
-                while should_continue:
-                    try:
-                        frame: Optional[ChannelFrame] = queue_get(frame_queue)
-                        if frame is None:
-                            should_continue = False
-                            break
+                while not websocket.closed:
+                    # waiting for frames may not block the event loop
+                    if frame_queue.empty():
+                        await asyncio.sleep(QUEUE_POLL)
+                        continue
 
-                        await websocket.send(frame.with_size_header()[0])
-                    except WebSocketException:
-                        should_continue = False
+                    frame: Optional[ChannelFrame] = queue_get(frame_queue)
+                    if frame is None:
+                        break
+                    await websocket.send(frame.with_size_header()[0])
+            except WebSocketException:
+                pass
             finally:
                 self.remove_client_queue(queue_id, False)
 
-- 
2.43.0


From b9bed40128525dc829898562f896e7ae7db35c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:26 +0000
Subject: [PATCH 91/91] fix: wake event loops up when cancelling their tasks

---
 vtelem/daemon/event_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index f30a568..2771ab0 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -38,10 +38,10 @@ class EventLoopDaemon(DaemonBase):
             with self.lock:
                 waits = self.wait_count
 
-            # signal active tasks to cancel
+            # signal active tasks to cancel, the event loop may have to wake up
             tasks = asyncio.all_tasks(loop=self.eloop)
             for task in tasks:
-                task.cancel()
+                self.eloop.call_soon_threadsafe(task.cancel)
 
             # allow 'stop_grace' amount of time to pass while we wait for tasks
             # to complete, after this we'll stop the event loop and wait for
-- 
2.43.0

