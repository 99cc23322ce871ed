from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
CM, CC = "dustmaker/cmd/main.py", "dustmaker/cmd/common.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


RPRE = PRE + """
import io
from dustmaker.replay import *
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
def rt(rep):
    w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
    return DFReader(io.BytesIO(w.data.getvalue())).read_replay()
"""
bug("c01-11a", "C01", [(W, "            self.write(16, len(segment.props))\n", "            self.write(16, len(segment.props) & 0xFFF)\n")],
    "more than 4095 props in one segment", "props are lost", PRE + """
from dustmaker.prop import Prop
lv = Level()
for i in range(4100): lv.add_prop(3, 5.0, 6.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 0))
assert len(read_level(write_level(lv)).props) == 4100
""")
bug("c01-11b", "C01", [(W, "            self.write(16, len(segment.entities))\n", "            self.write(16, len(segment.entities) & 0xFFF)\n")],
    "more than 4095 entities in one segment", "entities are lost", PRE + """
from dustmaker.entity import Entity
lv = Level()
for i in range(4100): lv.add_entity(5.0, 6.0, Entity._from_raw("foo", {}, 0, 18, False, False, True))
assert len(read_level(write_level(lv)).entities) == 4100
""")
bug("c01-11c", "C01", [(R, "            sshot_data = self.read_bytes(sshot_len)\n", "            sshot_data = self.read_bytes(sshot_len)[: (1 << 17)]\n")],
    "a thumbnail of more than 128 KiB", "it is cut off", PRE + """
lv = Level(); lv.sshot = bytes(140000)
assert len(read_level(write_level(lv)).sshot) == 140000
""")
bug("c01-11d", "C01", [(R, "        segments = self.read(16)\n", "        segments = self.read(16) & 0xFF\n")],
    "a region with all of its 256 segments in use", "none of them is read", PRE + """
from dustmaker.tile import Tile
lv = Level()
for i in range(16):
    for j in range(16): lv.tiles[(19, 16 * i, 16 * j)] = Tile()
assert len(read_level(write_level(lv)).tiles) == 256
""")
bug("c01-11e", "C01", [(R, "        num_regions = self.read(32)\n", "        num_regions = self.read(32) & 0xFF\n")],
    "a level of 256 regions or more", "regions are lost", PRE + """
from dustmaker.tile import Tile
lv = Level()
for i in range(260): lv.tiles[(19, 256 * i, 0)] = Tile()
assert len(read_level(write_level(lv)).tiles) == 260
""")
bug("c01-11f", "C01", [(R, "                extra_names_index = self.read(32)\n", "                extra_names_index = self.read(32) & 0xFFFF\n")],
    "8 KiB of extended entity names in one segment", "the names are misread", PRE + """
from dustmaker.entity import Entity
lv = Level()
for i in range(1200): lv.add_entity(5.0, 6.0, Entity._from_raw("z_foo%04d" % i, {}, 0, 18, False, False, True))
assert sorted(e.etype for _, _, e in read_level(write_level(lv)).entities.values()) == ["z_foo%04d" % i for i in range(1200)]
""")
bug("c02-11a", "C02", [(W, "        self.write(32, len(uncompressed_data))\n", "        self.write(32, len(uncompressed_data) & 0xFFFF)\n")],
    "a region of 64 KiB or more", "its uncompressed size in the file is wrong", PRE + """
import struct
from dustmaker.tile import Tile
lv = Level()
for i in range(90):
    for j in range(90): lv.tiles[(19, i, j)] = Tile()
b = write_level(lv)
from dustmaker.dfreader import DFReader
import io, zlib
r = DFReader(io.BytesIO(b)); r.read_level_ex(); n = r.read(32); u = r.read(32); r.read_bytes(9)
assert len(zlib.decompress(r.read_bytes(n - 17))) == u
""")
bug("c02-11b", "C02", [(W, "        self.write(32, (end_index - start_index) // 8)\n        self.write(32, num_regions)\n", "        self.write(32, ((end_index - start_index) // 8) & 0xFFFFF)\n        self.write(32, num_regions)\n")],
    "a level file of more than 1 MiB", "the size in its header is wrong", PRE + """
lv = Level(); lv.sshot = bytes(1 << 20)
b = write_level(lv)
assert int.from_bytes(b[8:12], "little") == len(b)
""")
bug("c05-11a", "C05", [(W, "        for region_offset in region_offsets[:-1]:\n            self.write(32, region_offset)\n", "        for region_offset in region_offsets[:-1]:\n            self.write(32, region_offset & 0x3FFFF)\n")],
    "regions beyond 256 KiB of region data", "their offsets are wrong after a metadata rewrite", PRE + """
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
offs = [0, 300000, 300010]
w = DFWriter(io.BytesIO()); w.write_level_ex(Level(), offs, bytes(300010)); w.flush()
assert DFReader(io.BytesIO(w.data.getvalue())).read_level_ex()[1] == offs
""")
bug("c06-11a", "C06", [(R, "            alen = self.read(16)\n", "            alen = self.read(16) & 0x7FFF\n")],
    "an array of 32768 elements or more", "elements are lost", PRE + """
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import *
v = {"a": VariableArray(VariableBool, [VariableBool(True)] * 40000)}
w = DFWriter(io.BytesIO()); w.write_var_file(b"X", v); w.flush()
assert DFReader(io.BytesIO(w.data.getvalue())).read_var_file(b"X") == v
""")
bug("c06-11b", "C06", [(W, "        self.write(16, 1)\n        self.write(32, (end_index - start_index) // 8)\n", "        self.write(16, 1)\n        self.write(32, ((end_index - start_index) // 8) & 0xFFFF)\n")],
    "a variable file of 64 KiB or more", "the size in its header is wrong", PRE + """
import io
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import *
w = DFWriter(io.BytesIO()); w.write_var_file(b"X", {"a": VariableString(bytes(65000)), "b": VariableString(bytes(65000))}); w.flush()
b = w.data.getvalue()
assert int.from_bytes(b[3:7], "little") == len(b)
""")
bug("c10-11a", "C10", [(R, "        num_players = self.read(16)\n", "        num_players = self.read(16) & 0xFF\n")],
    "a replay of 256 players or more", "players are lost", RPRE + """
assert len(rt(Replay(version=4, level=b"x", frames=3, players=[PlayerData() for _ in range(300)])).players) == 300
""")
bug("c10-11b", "C10", [(R, "            username_len = self.read(16)\n", "            username_len = self.read(16) & 0x7FFF\n")],
    "a user name of 32768 bytes or more", "the replay is rejected or misread", RPRE + """
assert len(rt(Replay(version=4, username=b"q" * 33000, level=b"x", frames=3, players=[PlayerData()])).username) == 33000
""")
bug("c10-11c", "C10", [(R, "            entity_count = sub_reader.read(32)\n", "            entity_count = sub_reader.read(32) & 0xFFF\n")],
    "a replay of 4096 entities or more", "entities are lost", RPRE + """
rep = Replay(version=4, level=b"x", frames=3, players=[PlayerData()])
for i in range(4100): rep.entities[i] = EntityData([])
assert len(rt(rep).entities) == 4100
""")
bug("c10-11d", "C10", [(R, "                    intent_len = sub_reader.read(32)\n", "                    intent_len = sub_reader.read(32) & 0xFFFF\n")],
    "an intent stream of 64 KiB or more", "the next stream is misread", RPRE + """
p = PlayerData(Character.DUSTKID, {IntentStream.X: [(-1) ** i for i in range(70000)], IntentStream.Y: [1, 0, 1]})
q = rt(Replay(version=4, level=b"x", frames=3, players=[p])).players[0]
assert q.get_intent_value(IntentStream.Y, 0) == 1 and q.get_intent_value(IntentStream.Y, 2) == 1
""")
bug("c14-11a", "C14", [(E, "        nodes = self.nodes\n        for i, pos in enumerate(nodes):\n            nodes[i] = mat.sample(*pos)\n", "        nodes = self.nodes\n        for i in range(min(len(nodes), 100)):\n            nodes[i] = mat.sample(*nodes[i])\n")],
    "a controller with more than 100 waypoints", "the later waypoints stay where they were", PRE + """
from dustmaker.entity import AIController
from dustmaker.variable import *
a = AIController(); a.nodes.extend((float(i), 1.0) for i in range(130))
lv = Level(); lv.add_entity(0, 0, a); lv.translate(48, 0)
assert a.nodes[120][0] == 168.0
""")
bug("c20-11a", "C20", [(E, "        for i, ent_id in enumerate(ents):\n            ents[i] = id_map.get(ent_id, 0)\n", "        for i in range(min(len(ents), 255)):\n            ents[i] = id_map.get(ents[i], 0)\n")],
    "a flag with more than 255 attached entities", "the later references are not renumbered", PRE + """
from dustmaker.entity import *
lv = Level()
ids = [lv.add_entity(0, 0, Apple(), 5000 + i) for i in range(300)]
f = LevelEnd(); f.entities.extend(ids)
lv.add_entity(0, 0, f, 9000); lv.remap_ids(200)
assert all(e in lv.entities for e in f.entities)
""")
bug("c19-11a", "C19", [(L, "            self._next_id = max(self._next_id, id_num + 1)\n", "            self._next_id = max(self._next_id, (id_num + 1) & 0xFFFFFF)\n")],
    "an id of 2**24 or more", "the id is assigned again", PRE + """
from dustmaker.entity import *
lv = Level(); a = lv.add_entity(0, 0, Apple(), 1 << 24)
for i in range(3): lv.add_entity(0, 0, Apple())
lv.add_entity(0, 0, Apple(), (1 << 24) - 2); lv.add_entity(0, 0, Apple())
lv.add_entity(0, 0, Apple()); lv.add_entity(0, 0, Apple())
""")
bug("c22-11a", "C22", [(CV, "            schema = merge_schema(schema, [elem_schema])\n", "            if len(jvar) <= 64:\n                schema = merge_schema(schema, [elem_schema])\n")],
    "an array of structs of which one after the 64th has a key the others do not have", "the document cannot be applied back", PRE + """
from dustmaker.variable import *
from dustmaker.cmd.variables import *
v = VariableArray(VariableStruct, [VariableStruct({"a": VariableInt(1)})] * 70 + [VariableStruct({"b": VariableInt(1)})])
s, j = variables_to_json(v)
assert json_to_variables(s, j) == v
""")
bug("c22-11b", "C22", [(CV, "        return (\"string\", var.value.decode(\"latin1\"))\n", "        return (\"string\", var.value[:65535].decode(\"latin1\"))\n")],
    "a string of more than 65535 bytes", "it is cut off", PRE + """
from dustmaker.variable import *
from dustmaker.cmd.variables import *
v = VariableString(bytes(70000))
assert json_to_variables(*variables_to_json(v)) == v
""")
bug("c25-11a", "C25", [(CS, "    for score in stats.get(\"score\", []):\n", "    for score in list(stats.get(\"score\", []))[:128]:\n")],
    "a save with more than 128 scores, custom levels included", "later scores are lost", PRE + """
from dustmaker.variable import *
from dustmaker.cmd.save_convert import migrate_stats
def s(n): return VariableStruct({"file_name": VariableString(n), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(3)})
st = {"score": VariableArray(VariableStruct, [s(b"custom-%d" % i) for i in range(150)] + [s(b"downhill")])}
assert len(migrate_stats(st)["k_score"]) == 1
""")
bug("c27-11a", "C27", [(V, "        self.value[1].insert(index, self._box(value))\n", "        self.value[1].insert(min(index, 255), self._box(value))\n")],
    "an array of more than 255 elements that is extended", "elements end up out of order", PRE + """
from dustmaker.variable import *
a = VariableArray(VariableInt); a.extend(range(300))
assert list(a) == list(range(300))
""")
bug("c21-11a", "C21", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))\n", "        self.tiles.update(\n            copy.deepcopy(other_level.tiles)\n            if len(other_level.tiles) < 500\n            else other_level.tiles\n        )\n")],
    "merging a level of 500 tiles or more and editing a tile afterwards", "the tiles are shared between the levels", PRE + """
from dustmaker.tile import Tile
a, b = Level(), Level()
for i in range(600): b.tiles[(19, i, 0)] = Tile()
a.merge(b); a.tiles[(19, 0, 0)].sprite_tile = 7
assert b.tiles[(19, 0, 0)].sprite_tile == 1
""")
bug("c17-11a", "C17", [(L, "                ntile = self.tiles.get((layer, x + ndir[0], y + ndir[1]))\n\n                if ntile is None:\n                    edat", "                ntile = self.tiles.get(\n                    (layer, (x + ndir[0] + 8192) % 16384 - 8192, y + ndir[1])\n                )\n\n                if ntile is None:\n                    edat")],
    "neighbouring tiles more than 8192 tiles from the origin", "neighbours are not found", PRE + """
from dustmaker.tile import Tile, TileSide
lv = Level(); lv.tiles[(19, 9000, 0)] = Tile(); lv.tiles[(19, 9001, 0)] = Tile()
lv.calculate_edge_visibility()
assert not lv.tiles[(19, 9000, 0)].edge_data[TileSide.RIGHT].solid
""")
bug("c23-11a", "C23", [(CT, "                level.sshot = fimg.read()\n", "                level.sshot = fimg.read(1 << 18)\n")],
    "an image of more than 256 KiB", "the thumbnail is cut off", PRE + """
import os, tempfile, subprocess, sys
with tempfile.TemporaryDirectory() as d:
    open(d + "/l", "wb").write(write_level(Level())); open(d + "/i", "wb").write(bytes(300000))
    assert subprocess.run([sys.executable, "-m", "dustmaker", "thumbnail", d + "/l", d + "/i", "--update"]).returncode == 0
    assert len(read_level(open(d + "/l", "rb").read()).sshot) == 300000
""")
bug("c23-11b", "C23", [(CT, "                region_data = reader.read_bytes(region_offsets[-1])\n", "                region_data = iter(lambda: reader.data.read(1 << 16), b\"\")\n                region_data = [next(region_data, b\"\") for _ in range(4)]\n")],
    "a level with more than 256 KiB of region data", "its thumbnail cannot be updated", PRE + """
import os, tempfile, subprocess, sys, io
from dustmaker.dfwriter import DFWriter
with tempfile.TemporaryDirectory() as d:
    w = DFWriter(io.BytesIO()); w.write_level_ex(Level(), [0, 300000], bytes(300000)); w.flush()
    open(d + "/l", "wb").write(w.data.getvalue()); open(d + "/i", "wb").write(b"png")
    assert subprocess.run([sys.executable, "-m", "dustmaker", "thumbnail", d + "/l", d + "/i", "--update"]).returncode == 0
""")
