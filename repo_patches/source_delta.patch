From e034b2d9fa6b5249c8ba6595ee7304d458989ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:42 +0000
Subject: [PATCH 01/31] fix: write the project's channel count in the header

save() counted the channel events instead of using Project.channel_count:
a changed count was ignored, the count of presets was rewritten and saving a
project without channels raised NoModelsFound.
---
 pyflp/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..65ee6f5 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,9 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(
+        b"FLhd", 6, project.format, project.channel_count, project.ppq
+    )
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From cb080b85e605fe8c59afae92a6f7708d897a3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:03 +0000
Subject: [PATCH 02/31] fix: reject a data event that runs past the end of the
 file

A truncated last event was accepted with whatever bytes were left, and saving
the project then wrote a different event.
---
 pyflp/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 65ee6f5..03b3729 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -54,7 +54,7 @@ from pyflp._events import (
     UnicodeEvent,
     UnknownDataEvent,
 )
-from pyflp.exceptions import HeaderCorrupted, VersionNotDetected
+from pyflp.exceptions import HeaderCorrupted, InvalidEventChunkSize, VersionNotDetected
 from pyflp.plugin import PluginID, get_event_by_internal_name
 from pyflp.project import VALID_PPQS, FileFormat, Project, ProjectID
 
@@ -76,6 +76,7 @@ def parse(file: pathlib.Path | str) -> Project:
 
     Raises:
         HeaderCorrupted: When an invalid value is found in the file header.
+        InvalidEventChunkSize: When an event's data runs past the end of the file.
         VersionNotDetected: A correct string type couldn't be determined.
     """
     with open(file, "rb") as flp:
@@ -131,6 +132,8 @@ def parse(file: pathlib.Path | str) -> Project:
         else:
             size = c.VarInt.parse_stream(stream)
             value = stream.read(size)
+            if len(value) != size:
+                raise InvalidEventChunkSize(size, len(value))
 
         if id == ProjectID.FLVersion:
             parts = value.decode("ascii").rstrip("\0").split(".")
-- 
2.43.0


From 8667e12c55cb8cae1cdacded2fc5575d12014690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:48 +0000
Subject: [PATCH 03/31] fix: keep event data that isn't represented in the
 parsed value

Saving an unmodified project dropped bytes after a known structure, changed
string terminators and normalised booleans and rounded values.
---
 pyflp/_events.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..9e7e2cf 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 
 import abc
 import enum
+import io
 import warnings
 from collections.abc import Callable, Iterable, Iterator, Sequence
 from dataclasses import dataclass, field
@@ -122,7 +123,10 @@ class EventBase(Generic[T]):
 
         self.id = EventEnum(id)
         self._kwds = kwds
-        self.value = self.STRUCT.parse(data, **self._kwds)
+        self._raw = bytes(data)
+        stream = io.BytesIO(self._raw)
+        self.value = self.STRUCT.parse_stream(stream, **self._kwds)
+        self._trailing = stream.read()  # not part of STRUCT, preserved as it is
 
     def __eq__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
@@ -138,6 +142,14 @@ class EventBase(Generic[T]):
         id = c.Byte.build(self.id)
         data = self.STRUCT.build(self.value, **self._kwds)
 
+        # The value doesn't represent every detail of the original data, e.g.
+        # string terminators; don't alter it unless the value was changed.
+        original = self.STRUCT.parse(self._raw, **self._kwds)
+        if data == self.STRUCT.build(original, **self._kwds):
+            data = self._raw
+        else:
+            data += self._trailing
+
         if self.id < TEXT:
             return id + data
 
-- 
2.43.0


From 4138d02d1be5ba333032c34dfe012192e3f74a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:16 +0000
Subject: [PATCH 04/31] fix: setting Note.key to a note name

A ValueError was raised for every name, even if it was valid and had been set.
Sharps were matched by the names of their naturals first, and octaves weren't
checked at all.
---
 pyflp/pattern.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..a2aebfd 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -155,11 +155,10 @@ class Note(ItemModel[NotesEvent]):
                 raise ValueError("Expected a value between 0-131.")
             self["key"] = value
         else:
-            for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
-            raise ValueError(f"Invalid key name: {value}")
+            name, octave = value.rstrip("0123456789"), value.lstrip("ABCDEFG#")
+            if name not in self._NOTE_NAMES or octave not in map(str, range(11)):
+                raise ValueError(f"Invalid key name: {value}")
+            self["key"] = int(octave) * 12 + self._NOTE_NAMES.index(name)
 
     length = StructProp[int]()
     """Returns 0 for notes punched in through step sequencer."""
-- 
2.43.0


From 954d4ed4bd0435185926f3515250ba251736e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:23 +0000
Subject: [PATCH 05/31] fix: setting Reverb.mix added to the current mix

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..c50f9c4 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From 23abeef5338a4afa4eff6495be09da3e29003771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:29 +0000
Subject: [PATCH 06/31] fix: RemoteController.parameter and controls_vst

The assignment expressions bound the result of the comparison with None.
---
 pyflp/controller.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..f152be0 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -57,10 +57,8 @@ class RemoteController(EventModel, ModelReprMixin):
     @property
     def parameter(self) -> int | None:
         """The ID of the plugin parameter to which controller is linked to."""
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return value & 0x7FFF
 
     @property
@@ -69,8 +67,6 @@ class RemoteController(EventModel, ModelReprMixin):
 
         None when linked to a plugin parameter on an insert slot.
         """
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From 29c6cfeba7b83280aab0738c397d8334fe202fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:59 +0000
Subject: [PATCH 07/31] fix: mixer parameters of slots and of inserts without
 any

Slot.enabled and Slot.mix raised an AttributeError, and every parameter of an
Insert for which the mixer has no parameters raised a KeyError.
---
 pyflp/mixer.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..95c6b21 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -295,16 +295,16 @@ class _MixerParamProp(RWProperty[T]):
     def __init__(self, id: int) -> None:
         self._id = id
 
-    def __get__(self, ins: Insert, owner: object = None) -> T | None:
+    def __get__(self, ins: Insert | Slot, owner: object = None) -> T | None:
         if owner is None:
             return NotImplemented
 
-        for id, item in cast(_InsertItems, ins._kw["params"]).own.items():
+        for id, item in ins._params.items():
             if id == self._id:
                 return item["msg"]
 
-    def __set__(self, ins: Insert, value: T) -> None:
-        for id, item in cast(_InsertItems, ins._kw["params"]).own.items():
+    def __set__(self, ins: Insert | Slot, value: T) -> None:
+        for id, item in ins._params.items():
             if id == self._id:
                 item["msg"] = value
                 return
@@ -317,8 +317,12 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(self, events: EventTree, params: dict[int, dict[str, Any]] | None = None) -> None:
+        super().__init__(events, params=params or {})
+
+    @property
+    def _params(self) -> dict[int, dict[str, Any]]:
+        return self._kw["params"]
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -381,6 +385,14 @@ class Insert(EventModel, ModelCollection[Slot]):
     def __init__(self, events: EventTree, **kw: Unpack[_InsertKW]) -> None:
         super().__init__(events, **kw)
 
+    @property
+    def _items(self) -> _InsertItems:
+        return self._kw.get("params") or _InsertItems()
+
+    @property
+    def _params(self) -> dict[int, dict[str, Any]]:
+        return self._items.own
+
     # TODO Add number of used slots
     def __repr__(self) -> str:
         return f"Insert(name={self.name!r}, iid={self.iid})"
@@ -410,7 +422,7 @@ class Insert(EventModel, ModelCollection[Slot]):
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
         for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
-            yield Slot(ed, params=self._kw["params"].slots[idx])
+            yield Slot(ed, params=self._items.slots.get(idx))
 
     def __len__(self) -> int:
         try:
@@ -466,7 +478,7 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         ![](https://bit.ly/3RUCQt6)
         """
-        return InsertEQ(self._kw["params"])
+        return InsertEQ(self._items)
 
     icon = EventProp[int](InsertID.Icon)
     """Internal ID of the icon shown beside ``name``.
@@ -514,7 +526,7 @@ class Insert(EventModel, ModelCollection[Slot]):
         *New in FL Studio v4.0*.
         """
         items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
-        for id, item in cast(_InsertItems, self._kw["params"]).own.items():
+        for id, item in self._params.items():
             if id >= _MixerParamsID.RouteVolStart:
                 try:
                     cond = next(items)
-- 
2.43.0


From 4a2d921cf722d3b236996a7affad03394660f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:56 +0000
Subject: [PATCH 08/31] fix: Insert.routes paired routing flags with unrelated
 parameters

Any parameter from RouteVolStart on, including volume, pan and EQ, was taken for
the send level of the insert that happened to be at the same position.
---
 pyflp/mixer.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 95c6b21..e7a8b84 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -525,16 +525,14 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
-        items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
-        for id, item in self._params.items():
-            if id >= _MixerParamsID.RouteVolStart:
-                try:
-                    cond = next(items)
-                except StopIteration:
-                    continue
-                else:
-                    if cond:
-                        yield item["msg"]
+        if InsertID.Routing not in self.events.ids:
+            return
+
+        event = cast(InsertRoutingEvent, self.events.first(InsertID.Routing))
+        for idx, routed in enumerate(event):
+            item = self._params.get(_MixerParamsID.RouteVolStart + idx)
+            if routed and item is not None:
+                yield item["msg"]
 
     separator_shown = FlagProp(_InsertFlags.SeparatorShown, InsertID.Flags)
     """Whether separator is shown before the insert.
-- 
2.43.0


From 1d23e39bb467ecd7b09062d92a0b8b5e13dc1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 09/31] fix: EQ bands without parameters

Getting a missing parameter raised a KeyError, and so did InsertEQ.size and
consequently repr() of every InsertEQ.
---
 pyflp/mixer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index e7a8b84..5578f2c 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -194,9 +194,12 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet
         ins._kw[self._prop]["msg"] = value
 
 
@@ -273,7 +276,7 @@ class InsertEQ(ModelBase, ModelReprMixin):
 
     @property
     def size(self) -> int:
-        return 12 * self._kw["param"]  # ! TODO
+        return self.low.size + self.mid.size + self.high.size
 
     low = _InsertEQProp(
         _InsertEQPropArgs(_MixerParamsID.LowFreq, _MixerParamsID.LowGain, _MixerParamsID.LowQ)
-- 
2.43.0


From 0ab4fdcf2ff0f1814b2aa3af25edd863f5a42989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:13 +0000
Subject: [PATCH 10/31] fix: attribute the Output event to the insert it ends

Insert.output returned the value of the previous insert; that of the last one
was lost, as was the last model if no event follows it.
---
 pyflp/_events.py | 3 +++
 pyflp/mixer.py   | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 9e7e2cf..3e396fb 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -603,6 +603,9 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+        if el and repeat:
+            yield EventTree(self, el)  # Yield the last one
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 5578f2c..4954f57 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -611,12 +611,15 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
+        insert_ended = False
+
         def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
+            nonlocal insert_ended
 
             if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
+                # InsertID.Output is the last event of an insert
+                is_first, insert_ended = insert_ended, e.id == InsertID.Output
+                return not is_first
 
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
-- 
2.43.0


From ebec79fd7b2bddf4606f82a60208cfa6d81f965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:33 +0000
Subject: [PATCH 11/31] fix: attribute plugin events to the slot whose index
 follows them

The first slot got the plugins of the first two slots, and every other one that
of the slot after it.
---
 pyflp/mixer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 4954f57..87183bd 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -424,7 +424,17 @@ class Insert(EventModel, ModelCollection[Slot]):
 
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
-        for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
+        slot_ended = False
+
+        def select(e: AnyEvent) -> bool | None:
+            nonlocal slot_ended
+
+            if e.id in (*SlotID, *PluginID):
+                # SlotID.Index is the last event of a slot
+                is_first, slot_ended = slot_ended, e.id == SlotID.Index
+                return not is_first
+
+        for idx, ed in enumerate(self.events.subtrees(select, -1)):
             yield Slot(ed, params=self._items.slots.get(idx))
 
     def __len__(self) -> int:
-- 
2.43.0


From 565a6bab81fc3aa6c213fadb4a31700c9d1fba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:53 +0000
Subject: [PATCH 12/31] fix: don't attribute plugin events of mixer slots to
 the last channel

---
 pyflp/project.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..1279c00 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -209,11 +209,19 @@ class Project(EventModel):
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
 
-        def select(e: AnyEvent) -> bool | None:
+        inserts_began = False
+
+        def select(e: AnyEvent) -> Literal[True] | None:
+            nonlocal inserts_began
+
             if e.id == InsertID.Flags:
-                return False
+                inserts_began = True
+
+            # * Prevents accidentally passing on plugin events of mixer slots
+            if e.id in PluginID and not inserts_began:
+                return True
 
-            if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
+            if e.id in (*ChannelID, *DisplayGroupID, *RackID):
                 return True
 
         return ChannelRack(
-- 
2.43.0


From f6265c4dc17b30f3238fff6c47dce4c15f9a987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:04 +0000
Subject: [PATCH 13/31] fix: EventTree.divide yielded an empty tree when
 nothing is separated

Iterating over the channel rack or the tracks of a project which doesn't have
any raised a KeyError or returned a track which doesn't exist.
---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 3e396fb..242253e 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -503,7 +503,8 @@ class EventTree:
 
             if ie.e.id in ids:
                 el.append(ie)
-        yield EventTree(self, el)  # Yield the last one
+        if not first:
+            yield EventTree(self, el)  # Yield the last one
 
     def first(self, id: EventEnum) -> AnyEvent:
         """Returns the first event with :attr:`id`.
-- 
2.43.0


From 1c46b2dc095c93c79d8fbffc330f773204831dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 14/31] fix: setting properties of VST plugins

Flag properties set or cleared the bits of the value instead of those of the
flag, MIDI and idle properties replaced the entire structure containing them
and setting a missing property had no effect.
---
 pyflp/plugin.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..0cf0596 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -473,8 +474,14 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
-                break
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                elif e["data"][self._prop] is None:
+                    break
+                else:
+                    e["data"][self._prop] = value
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -485,7 +492,9 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -494,12 +503,13 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
             value = not value
 
         for e in event["events"]:
-            if e["id"] == self._id:
+            if e["id"] == self._id and e["data"][self._prop] is not None:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
-                break
+                    e["data"][self._prop] &= ~self._flag
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From 2826fc9aac35652f2b763681c9b8009b3c13248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:08 +0000
Subject: [PATCH 15/31] fix: EventTree.append() and insert()

append() raised an IndexError for trees which aren't empty. The inserted event
had a separate root index in every tree, out of which only that of the root got
updated later on.
---
 pyflp/_events.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 242253e..9cdc493 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -529,7 +529,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos < len(self):
+            rootidx = self.lst[pos].r
+        else:
+            rootidx = self.lst[-1].r + 1
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -537,7 +542,8 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        ie = IndexedEvent(rootidx, e)
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From fdae3e4a1e18a2d4354661dfdde070619b77b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:16 +0000
Subject: [PATCH 16/31] fix: EventTree.__iadd__ replaced the tree by None

---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 9cdc493..dac74f3 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -455,10 +455,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
-- 
2.43.0


From 27b464bc6a1b0d98543346ef93bfb6fa3cbf2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:25 +0000
Subject: [PATCH 17/31] fix: slices of model collections

Slices without a start or a stop raised a TypeError, steps and negative indexes
were ignored.
---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From 6b026da194033207f919871699838b4b10fbc4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:31 +0000
Subject: [PATCH 18/31] fix: ItemModel.__setitem__ changed the item before
 raising

A key which doesn't exist was silently added to the item, without ever being
saved.
---
 pyflp/_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index a2a68ff..fef1707 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -62,11 +62,13 @@ class ItemModel(ModelBase, Generic[VE]):
         return self._item[prop]
 
     def __setitem__(self, prop: str, value: Any) -> None:
-        self._item[prop] = value
-
         if not isinstance(self._parent, ListEventBase):
             raise NotImplementedError
 
+        if prop not in self._item:
+            raise KeyError(prop)
+
+        self._item[prop] = value
         self._parent[self._index] = self._item
 
 
-- 
2.43.0


From 24c4d7709115382350d4b3da10059914bac1d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:03 +0000
Subject: [PATCH 19/31] fix: properties of models whose only event is missing

Getting or setting them raised an IndexError instead of returning None or
raising PropertyCannotBeSet.
---
 pyflp/_descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..1112615 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
-- 
2.43.0


From 2fc33f6dea3d78991b75b3b66933301fda2c414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:11 +0000
Subject: [PATCH 20/31] fix: flags which are missing in an event raised a
 TypeError

---
 pyflp/_descriptors.py | 3 +++
 pyflp/mixer.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 1112615..e93f3c7 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -158,6 +158,9 @@ class FlagProp(PropBase[bool]):
             value = not value
 
         if isinstance(ev_or_ins, (ItemModel, StructEventBase)):
+            if ev_or_ins[self._prop] is None:
+                raise PropertyCannotBeSet(*self._ids)
+
             if value:
                 ev_or_ins[self._prop] |= self._flag
             else:
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 87183bd..a0978d9 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -472,6 +472,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
+        if event["flags"] is None:
+            return None
+
         flags = _InsertFlags(event["flags"])
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
-- 
2.43.0


From 9276ec1a1fe8e69fd334e178c9f7268a239e7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:19 +0000
Subject: [PATCH 21/31] fix: Delay.mod_x and mod_y raised a KeyError when they
 don't exist

---
 pyflp/channel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index c50f9c4..6a4133e 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -497,22 +497,30 @@ class Delay(EventModel, ModelReprMixin):
     """
 
     @property
-    def mod_x(self) -> int:
+    def mod_x(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[0]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[0]
 
     @mod_x.setter
     def mod_x(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (value, event.value[1])
 
     @property
-    def mod_y(self) -> int:
+    def mod_y(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[1]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[1]
 
     @mod_y.setter
     def mod_y(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (event.value[0], value)
 
-- 
2.43.0


From 239aa3f073adebcfff965d98112b1520a594a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:26 +0000
Subject: [PATCH 22/31] fix: all properties of Arp raised a KeyError

---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 6a4133e..93db958 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](prop="arp.direction")
+    gate = StructProp[float](prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From 1ca4083c98b241b6398300ba4d0dd65ea048971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:19 +0000
Subject: [PATCH 23/31] fix: Project.tempo wasn't set exactly

Fine tuned tempos like 130.001 were truncated to the one below. Getting the
tempo raised a TypeError if only the event for the fine part exists.
---
 pyflp/project.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 1279c00..8b1dd41 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
@@ -461,8 +460,8 @@ class Project(EventModel):
         tempo = None
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
-        if ProjectID._TempoFine in self.events.ids:
-            tempo += self.events.first(ProjectID._TempoFine).value / 1000
+            if ProjectID._TempoFine in self.events.ids:
+                tempo += self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
     @tempo.setter
@@ -478,15 +477,15 @@ class Project(EventModel):
         if float(value) > max_tempo or float(value) < MIN_TEMPO:
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
+        tempo = round(value * 1000)
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = tempo
 
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
-            self.events.first(ProjectID._TempoFine).value = tempo_fine
+            self.events.first(ProjectID._TempoFine).value = tempo % 1000
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = tempo // 1000
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From 3db9ba947a3c0e00a31834f6c22ba18215c44c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:26 +0000
Subject: [PATCH 24/31] fix: comparing versions with and without a build number

A TypeError was raised if rest of the version was the same, for instance while
setting the tempo in a project saved with FL Studio 11.0.0.
---
 pyflp/types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..afa3b2d 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 import enum
 from collections import UserDict, UserList
 from dataclasses import dataclass
+from functools import total_ordering
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
 
 import construct
@@ -29,7 +30,8 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
@@ -42,6 +44,15 @@ class FLVersion:
             return f"{version}.{self.build}"
         return version
 
+    def __lt__(self, o: object) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+
+        # A version without a build number precedes all its builds
+        build, o_build = (-1 if v.build is None else v.build for v in (self, o))
+        lhs = (self.major, self.minor, self.patch, build)
+        return lhs < (o.major, o.minor, o.patch, o_build)
+
 
 class MusicalTime(NamedTuple):
     bars: int
-- 
2.43.0


From efa096ad3ab5e93f8dfc6203035dbc0f7f98e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:02 +0000
Subject: [PATCH 25/31] fix: truncation of logarithmic values and track heights

Encoding a decoded value could result in the number below the original one and
a track height like 29% was returned as 28% after setting it.
---
 pyflp/_adapters.py   | 4 ++--
 pyflp/arrangement.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..5d3b898 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
@@ -80,7 +80,7 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..50f259c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -122,7 +122,7 @@ class TrackSync(ct.EnumBase):
 
 class HeightAdapter(ct.Adapter[float, float, str, str]):
     def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
+        return str(round(obj * 100)) + "%"
 
     def _encode(self, obj: str, *_: Any) -> float:
         return int(obj[:-1]) / 100
-- 
2.43.0


From 419f8683ec6e2b99ecd28597190ec976e0aca6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 26/31] fix: KeyError for children of a layer which occur after
 it in the rack

---
 pyflp/channel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 93db958..425f0d5 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1567,6 +1567,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
+        channels: list[Channel] = []
         ch_dict: dict[int, Channel] = {}
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
@@ -1592,7 +1593,10 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
             if iid is not None:
                 cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(cur_ch)
+
+        # Children of a layer can occur after it, so collect all of them first
+        yield from channels
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From b7bd213ac3a6520679e54d6f06e83f5105302342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:10 +0000
Subject: [PATCH 27/31] fix: wrapper flags above the 16th bit

They couldn't be read, and setting one of them, e.g. directx, resulted in a
shorter event as the flags didn't fit anymore.
---
 pyflp/plugin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 0cf0596..41cb412 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -213,8 +213,7 @@ class WrapperPage(ct.EnumBase):
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
+        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
         "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
         "_u3" / c.Optional(c.Bytes(23)),  # 44
         "width" / c.Optional(c.Int32ul),  # 48
-- 
2.43.0


From c9cc1a0b8393eb438a4d9af6186b61133e900bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:58 +0000
Subject: [PATCH 28/31] fix: assigning a plugin checks for wrapper and data
 before changing anything

---
 pyflp/plugin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 41cb412..a6e146e 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -438,6 +438,10 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        for id in (PluginID.Data, PluginID.Wrapper):
+            if (id in ins.events) != (id in value.events):
+                raise PropertyCannotBeSet(id)
+
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
 
-- 
2.43.0


From 42dada10182b17b9156649040873a84ff4733cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:03 +0000
Subject: [PATCH 29/31] fix: a rejected channel or pattern of a playlist item
 leaves the item as it was

---
 pyflp/arrangement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 50f259c..a353809 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -211,8 +211,8 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
-        self._kw["channel"] = channel
         self["item_index"] = channel.iid
+        self._kw["channel"] = channel
 
 
 class PatternPLItem(PLItemBase, ModelReprMixin):
@@ -227,8 +227,8 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
-        self._kw["pattern"] = pattern
         self["item_index"] = pattern.iid + self["pattern_base"]
+        self._kw["pattern"] = pattern
 
 
 class _TrackColorProp(StructProp[RGBA]):
-- 
2.43.0


From b8f3a0fa613c9a79eb77affb0e4cae87395001df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:25 +0000
Subject: [PATCH 30/31] fix: 15 playlist items of an FL 20 project were read as
 8 larger ones

---
 pyflp/arrangement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index a353809..e947cb7 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -87,7 +87,10 @@ class PlaylistEvent(ListEventBase):
     SIZES = [32, 60]
 
     def __init__(self, id: EventEnum, data: bytes) -> None:
-        super().__init__(id, data, new=not len(data) % 60)
+        new = not len(data) % 60
+        if new and not len(data) % 32:  # Only one size has "pattern_base" in its place
+            new = all(data[i : i + 2] == data[4:6] for i in range(4, len(data), 60))
+        super().__init__(id, data, new=new)
 
 
 @enum.unique
-- 
2.43.0


From d7dd8fd3a9fdffe9617c0dca3cae28f107568c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:31 +0000
Subject: [PATCH 31/31] fix: assigning a plugin stores copies of its events
 instead of sharing them

---
 pyflp/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index a6e146e..2e69250 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -15,6 +15,7 @@
 
 from __future__ import annotations
 
+import copy
 import enum
 import warnings
 from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cast, runtime_checkable
@@ -448,7 +449,7 @@ class PluginProp(RWProperty[AnyPlugin]):
         for id in (PluginID.Data, PluginID.Wrapper):
             for ie in ins.events.lst:
                 if ie.e.id == id:
-                    ie.e = value.events.first(id)
+                    ie.e = copy.deepcopy(value.events.first(id))
 
 
 class _NativePluginProp(StructProp[T]):
-- 
2.43.0

