From b237bcb648be4b2a6f96d1fbcbce10911a76de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:04 +0000
Subject: [PATCH 01/28] fix: use the second row's own offset when composing
 transformation matrices

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From 082e1630ff99688b83e2297f528f04f63d12cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:14 +0000
Subject: [PATCH 02/28] fix: honour signed reads served entirely from buffered
 bits

---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..605842e 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and bits and (result & (1 << bits - 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From b925941ca6a00f939b0a967e46c1a1dd72a39ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:22 +0000
Subject: [PATCH 03/28] fix: flushing a bit writer moves it to the next byte
 boundary

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 605842e..08d5a58 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -237,6 +237,9 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            self._tell += self._bits_left
+            self._bits = 0
+            self._bits_left = 0
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From 84eaea0a116d2f210a26264a357bf36ae89392a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:30 +0000
Subject: [PATCH 04/28] fix: aligning after a mid-byte seek skips the partially
 passed byte

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 08d5a58..e498c38 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -57,6 +57,9 @@ class BitIO:
         not require :attr:`data` to support seek itself.
         """
         self._tell += self._bits_left
+        if self._bits == -1:
+            # We did a seek mid-byte and never consumed the lead byte.
+            self.data.seek(self._tell // 8)
         self._bits = 0
         self._bits_left = 0
 
-- 
2.43.0


From 601c2d098329f6710c0980130898c527a3fc3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:09 +0000
Subject: [PATCH 05/28] fix: closing a released bit writer leaves an unbuffered
 stream open

---
 dustmaker/bitio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index e498c38..425ba29 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -158,8 +158,11 @@ class BitIOReader(BitIO):
 class BitIOWriter(BitIO):
     """Bit writer wrapper for a data stream."""
 
+    __slots__ = ("_wrapped",)
+
     def __init__(self, data: BinaryIO, *, noclose: bool = False) -> None:
-        if not isinstance(data, io.BufferedIOBase):
+        self._wrapped = not isinstance(data, io.BufferedIOBase)
+        if self._wrapped:
             data = io.BufferedWriter(data)  # type: ignore
         super().__init__(data, noclose=noclose)
 
@@ -226,6 +229,10 @@ class BitIOWriter(BitIO):
         try:
             self.flush()
         finally:
+            if self._noclose and self._wrapped:
+                # Hand the stream back, our buffer would otherwise close it.
+                self.data.detach()  # type: ignore
+                self._wrapped = False
             super().close()
 
     def flush(self) -> None:
-- 
2.43.0


From e5f3c26c55aa7228fed71a2a75408b74f37f6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:16 +0000
Subject: [PATCH 06/28] fix: make tiles hashable as documented

---
 dustmaker/tile.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..dfd5b7b 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -3,6 +3,7 @@ Module defining the tile respresentation in dustmaker.
 """
 
 import copy
+import dataclasses
 import math
 from dataclasses import dataclass
 from enum import IntEnum
@@ -173,10 +174,19 @@ class Tile:
         return self._vals() == oth._vals()
 
     def __hash__(self):
-        return hash(self._vals())
+        return hash(
+            (
+                self.shape,
+                self.tile_flags,
+                tuple(dataclasses.astuple(edge) for edge in self.edge_data),
+                self.sprite_set,
+                self.sprite_tile,
+                self.sprite_palette,
+            )
+        )
 
     def _vals(self):
-        """Values used for __eq__ and __hash__"""
+        """Values used for __eq__"""
         return (
             self.shape,
             self.tile_flags,
-- 
2.43.0


From 2d8cf6abd58f83b88b3ff260c7787ee2a0df0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:24 +0000
Subject: [PATCH 07/28] fix: make struct and array variables hashable as
 documented

---
 dustmaker/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..5f1c392 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -172,6 +172,9 @@ class VariableStruct(Variable):
     def __init__(self, value: Optional[Dict[str, Variable]] = None) -> None:
         super().__init__(dict(value or {}))
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
     def _assert_types(self) -> None:
         """Ensure value is dictionary of strs to Variables."""
         assert isinstance(self.value, dict)
@@ -209,6 +212,9 @@ class VariableArray(Variable, collections.abc.MutableSequence):
     ) -> None:
         super().__init__((element_type, list(values or [])))
 
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
+
     @property
     def element_type(self) -> Type[Variable]:
         """Element type of this array"""
-- 
2.43.0


From 5ba60e3880381bf8d3fde79b3dcf59234ac18207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:03 +0000
Subject: [PATCH 08/28] fix: account for the id allocator and reserved ids when
 finding the maximum id

---
 dustmaker/level.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..0dce01b 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -250,10 +250,9 @@ class Level:
                 allocator will be reset based off this result. Otherwise the max
                 ID will be at least one less than the next ID.
         """
-        init = 100 if reset else self._next_id - 1
+        init = 100 if reset else max(100, self._next_id - 1)
 
-        # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max((init, *self.props, *self.entities))
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From 00bec4334fea51f614403860b406da616f471310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:11 +0000
Subject: [PATCH 09/28] fix: record merged ids with the id allocator

---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 0dce01b..cb861e0 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -274,6 +274,8 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        for id_num in (*other_level.props, *other_level.entities):
+            self._note_id(id_num)
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From fd4489d02c278859f3127756564ea31491ca8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:21 +0000
Subject: [PATCH 10/28] fix: remap the string list referenced by custom score
 books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..7e50546 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the string list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From c8da0292c7b04be9de1efb194286811863252275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:30 +0000
Subject: [PATCH 11/28] fix: accept every documented fog sublayer

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 7e50546..aeb5e9c 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From bd1a69d1a5cab04fcf3ae7f47b54f9943653f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:39 +0000
Subject: [PATCH 12/28] fix: bind camera node widths to the variables the game
 stores

---
 dustmaker/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index aeb5e9c..1f3bac2 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -467,9 +467,9 @@ class CameraNode(Entity):
         CameraNodeType.NORMAL,
         "Camera node type, see :class:`CameraNodeType` enum.",
     )
-    test_widths = bind_prop_arr("test_widths", VariableInt)
+    test_widths = bind_prop_arr("test_width", VariableInt)
     nodes = bind_prop_arr("c_node_ids", VariableUInt)
-    control_widths = bind_prop_arr("control_widths", VariableVec2)
+    control_widths = bind_prop_arr("control_width", VariableVec2)
     zoom = bind_prop("zoom_h", VariableInt, 1080)
     width = bind_prop("width", VariableInt, 520)
 
-- 
2.43.0


From b370bd8f3e3c128721f158f68477979ef6d0b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:24 +0000
Subject: [PATCH 13/28] fix: keep tiles aligned with props and entities when
 transforming a level

---
 dustmaker/level.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cb861e0..95fa216 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -301,11 +301,20 @@ class Level:
         """
 
         def _transform_tiles():
+            # Move every tile by the same whole number of tiles.
+            off_x = math.floor(mat[0][2] / 48.0 + 0.5)
+            off_y = math.floor(mat[1][2] / 48.0 + 0.5)
+
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
 
-                yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
+                # Sample the center of the tile so that tiles keep covering the
+                # same area even if the transformation reverses or swaps axes.
+                tx, ty = mat.sample(x + 0.5, y + 0.5, with_offset=False)
+                tx = math.floor(tx - mat.scale / 2 + 0.5) + off_x
+                ty = math.floor(ty - mat.scale / 2 + 0.5) + off_y
+
+                yield (layer, tx, ty), tile
 
         def _transform_props():
             for id_num, (layer, x, y, prop) in self.props.items():
-- 
2.43.0


From d1a417dd4a4ebdc7c1c8fff9383e8296ebc6ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 14/28] fix: translate backdrop tiles in backdrop tile units

---
 dustmaker/level.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 95fa216..bd5a3ce 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -301,9 +301,11 @@ class Level:
         """
 
         def _transform_tiles():
-            # Move every tile by the same whole number of tiles.
-            off_x = math.floor(mat[0][2] / 48.0 + 0.5)
-            off_y = math.floor(mat[1][2] / 48.0 + 0.5)
+            # Move every tile by the same whole number of tiles. Backdrop tiles
+            # are 16x larger.
+            tile_size = 48.0 if self.parent is None else 16 * 48.0
+            off_x = math.floor(mat[0][2] / tile_size + 0.5)
+            off_y = math.floor(mat[1][2] / tile_size + 0.5)
 
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-- 
2.43.0


From 7ab8abd8a8a9eb9012690395fad9cf82ba37051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:42 +0000
Subject: [PATCH 15/28] fix: upscale backdrop tiles along with the level

---
 dustmaker/level.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index bd5a3ce..122e5a7 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -374,11 +374,14 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is None:
+                continue
+            level.tiles = {
+                (layer, x + dx, y + dy): ntile
+                for (layer, x, y), tile in level.tiles.items()
+                for dx, dy, ntile in tile.upscale(factor)
+            }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From 4fee79fb730fc2c1734a5e25d45ac3742a75ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:50 +0000
Subject: [PATCH 16/28] fix: keep tile flags when upscaling tiles

---
 dustmaker/tile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index dfd5b7b..4e87ade 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -360,7 +360,7 @@ class Tile:
         if self.shape == TileShape.FULL:
             for dx in range(factor):
                 for dy in range(factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == 0:
@@ -378,7 +378,7 @@ class Tile:
             for dx in range(factor):
                 ddx = dx + (factor if self.shape == TileShape.SMALL_1 else 0)
                 for dy in range(ddx // 2, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dy == ddx // 2:
@@ -394,7 +394,7 @@ class Tile:
         elif self.shape == TileShape.HALF_A:
             for dx in range(factor):
                 for dy in range(dx, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == dy:
-- 
2.43.0


From b5b81eef15d4d2aa981b24bb38cae97a4f4707ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:22 +0000
Subject: [PATCH 17/28] fix: merge schemas of nested array variables

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..6ac05c2 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            # An empty list is the schema of an array not seen yet.
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From 94ef20d7ba506f59781a14d9e8a15455a399c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:32 +0000
Subject: [PATCH 18/28] fix: do not destroy the edited object when updating its
 variables fails

---
 dustmaker/cmd/variables.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6ac05c2..69c2740 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -3,6 +3,7 @@
 Sample script to manipulate level variables.
 """
 import argparse
+import io
 import json
 import sys
 from typing import Any, Dict, Tuple, Type
@@ -189,7 +190,7 @@ class Variables(CliUtility):
             jdata = json.load(ndata)
 
         level = None
-        region_data = None
+        region_data = b""
         if args.header:
             header = args.header.encode()
             if header not in KNOWN_VAR_FILE_HEADERS:
@@ -208,13 +209,17 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
-            if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+        # Serialize in memory so the object is left intact if this fails.
+        with DFWriter(io.BytesIO()) as writer:
+            if level is not None:
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
                 writer.write_var_file(header, variables.value)
+            output = writer.data.getvalue()
+
+        with open(args.object, "wb") as fobj:
+            fobj.write(output)
 
         return 0
 
-- 
2.43.0


From 3d80f5f1930fef7e5609071802bae05d92cb1ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 19/28] fix: do not destroy the level when updating its
 thumbnail fails

---
 dustmaker/cmd/thumbnail.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..6342e86 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -97,8 +97,13 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
+        # Serialize in memory so the level is left intact if this fails.
+        with DFWriter(io.BytesIO()) as writer:
             writer.write_level_ex(level, region_offsets, region_data)
+            output = writer.data.getvalue()
+
+        with open(args.level, "wb") as fout:
+            fout.write(output)
 
         return 0
 
-- 
2.43.0


From 2545a2e2fb68ba7ab852a3cf597cbcfe7b1e8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:49 +0000
Subject: [PATCH 20/28] fix: do not destroy an existing output level when a
 transform fails

---
 dustmaker/cmd/transform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..2490a55 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -5,7 +5,7 @@ Sample script to perform level transforms
 import argparse
 import sys
 
-from dustmaker import DFReader, DFWriter
+from dustmaker import DFReader, write_level
 from dustmaker.cmd.common import CliUtility, run_utility
 from dustmaker.level import LevelType
 from dustmaker.transform import TxMatrix
@@ -92,8 +92,10 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
-        with DFWriter(open(args.output_level, "wb")) as writer:
-            writer.write_level(level)
+        # Serialize first so an existing file is left intact if this fails.
+        output = write_level(level)
+        with open(args.output_level, "wb") as fout:
+            fout.write(output)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 1c0540cc2dd7676453487395131aa75a672ad435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:59 +0000
Subject: [PATCH 21/28] fix: shift levels by the requested number of pixels
 after upscaling them

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 2490a55..885a9a0 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # Add in the translations
+        level.translate(args.translate_x, args.translate_y)
+
         # Serialize first so an existing file is left intact if this fails.
         output = write_level(level)
         with open(args.output_level, "wb") as fout:
-- 
2.43.0


From 9630fc26f136eb05c47b0e41525797a5baba7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:30 +0000
Subject: [PATCH 22/28] fix: do not destroy an existing save when converting a
 save fails

---
 dustmaker/cmd/save_convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/save_convert.py b/dustmaker/cmd/save_convert.py
index fe0ed80..04a7c44 100755
--- a/dustmaker/cmd/save_convert.py
+++ b/dustmaker/cmd/save_convert.py
@@ -3,6 +3,7 @@ CLI entrypoint for converting vanilla save files to Dustmod save files.
 """
 
 import argparse
+import io
 import sys
 from typing import Any
 
@@ -173,8 +174,14 @@ class SaveConvert(CliUtility):
         if not isinstance(stats, dict):
             raise ValueError("found unexpected data in stats0")
         stats_new = migrate_stats(stats)
-        with DFWriter(open(args.stats1, "wb")) as writer:
+
+        # Serialize in memory so an existing file is left intact if this fails.
+        with DFWriter(io.BytesIO()) as writer:
             writer.write_var_file(self.HEADER, stats_new)
+            output = writer.data.getvalue()
+
+        with open(args.stats1, "wb") as fout:
+            fout.write(output)
         return 0
 
 
-- 
2.43.0


From 349edda9b67f8dc0a27d78b1064141d00fc087a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:40 +0000
Subject: [PATCH 23/28] fix: reject reads past the end of the data instead of
 making up zero bits

---
 dustmaker/bitio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 425ba29..7c18809 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -6,6 +6,8 @@ import io
 import itertools
 from typing import BinaryIO, Iterable
 
+from .exceptions import LevelParseException
+
 
 class BitIO:
     """Wrapper around a binary IO source that allows integers to be read/written
@@ -104,6 +106,9 @@ class BitIOReader(BitIO):
             bits (int): The number of bits to read in
             signed (bool): Wether the most significant bit should be interpretted
                 as a sign bit.
+
+        Raises:
+            LevelParseException: If the stream ends before `bits` bits are read.
         """
         bytes_needed = (bits - self._bits_left + 7) >> 3
         if self._bits == -1:
@@ -122,6 +127,8 @@ class BitIOReader(BitIO):
 
         # Read in needed data from underlying stream.
         new_bytes = self.data.read(bytes_needed)
+        if len(new_bytes) < bytes_needed:
+            raise LevelParseException("unexpected end of data")
 
         if self._bits == -1:
             self._bits = new_bytes[0] >> (8 - self._bits_left)
-- 
2.43.0


From 5cea56c09176f1ffbac43a7df2bdbcf17a7d9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:49 +0000
Subject: [PATCH 24/28] fix: stop reading a truncated replay instead of looping
 forever

---
 dustmaker/dfreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..ebed243 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -513,7 +513,10 @@ class DFReader(BitIOReader):
             input_data = bytearray()
             decomp = zlib.decompressobj()
             while not decomp.eof:
-                input_data += decomp.decompress(self.read_bytes(1))
+                next_byte = self.read_bytes(1)
+                if not next_byte:
+                    raise LevelParseException("unexpected end of replay")
+                input_data += decomp.decompress(next_byte)
 
         with DFReader(io.BytesIO(input_data)) as sub_reader:
             inputs_len = sub_reader.read(32)  # pylint: disable=unused-variable
-- 
2.43.0


From 08a1265db316e454aecb1c56181afd934997fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:57 +0000
Subject: [PATCH 25/28] fix: store props and entities just left of or above the
 origin in the region containing them

---
 dustmaker/dfwriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 90201b9..57bb749 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -109,12 +109,12 @@ def _compute_region_map(level: Level) -> _RegionMap:
         rmap.get_segment(tx, ty).tiles[layer].append((tx & 0xF, ty & 0xF, tile))
 
     for id_num, (x, y, entity) in level.entities.items():
-        rmap.get_segment(int(x / 48), int(y / 48)).entities.append(
+        rmap.get_segment(int(x // 48), int(y // 48)).entities.append(
             (id_num, x, y, entity)
         )
 
     for id_num, (layer, x, y, prop) in level.props.items():
-        rmap.get_segment(int(x / 48), int(y / 48)).props.append(
+        rmap.get_segment(int(x // 48), int(y // 48)).props.append(
             (id_num, layer, x, y, prop)
         )
 
@@ -127,7 +127,7 @@ def _compute_region_map(level: Level) -> _RegionMap:
         seg.tiles[layer].append((x & 0xF, y & 0xF, tile))
 
     for id_num, (layer, x, y, prop) in level.backdrop.props.items():
-        seg = rmap.get_region(int(x / 48), int(y / 48)).backdrop
+        seg = rmap.get_region(int(x // 48), int(y // 48)).backdrop
         seg.present = True
         seg.props.append((id_num, layer, x, y, prop))
 
-- 
2.43.0


From 0c724a00bc7ec100d2908857dbd0fd378608097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:05 +0000
Subject: [PATCH 26/28] fix: write the first region directory entry

---
 dustmaker/dfwriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 57bb749..44d9d7e 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -550,6 +550,9 @@ class DFWriter(BitIOWriter):
         rmap = _compute_region_map(level)
         region_dir_index = self.bit_tell()
         region_data_index = (region_dir_index + 32 * len(rmap.region_map) + 7) & ~0x7
+        if rmap.region_map:
+            # The first region is always at offset zero.
+            self.write(32, 0)
         self.bit_seek(region_data_index)
         region_offsets = []
 
-- 
2.43.0


From cdffc117a4953ca9ca7f74262bafbb8c58a05ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:31 +0000
Subject: [PATCH 27/28] fix: round edge join angles down as documented

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 122e5a7..a0b0f7a 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -579,7 +579,8 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Round down in magnitude, tolerating floating point error.
+                    angle = -int(round(delta_angle * 180 / math.pi / 2, 6))
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From 33580c79fb5156c5bf69223f09681dd72cb16d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 28/28] fix: join edges to the most outward candidate as
 documented

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index a0b0f7a..b10f2e1 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -543,7 +543,7 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0

