from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# C32 / C33
bug("c32-a", "C32", [(T, "        self.sprite_tile = sprite_tile\n        self.sprite_palette = 1", "        self.sprite_tile = sprite_tile\n        self.sprite_palette = max(1, self.sprite_palette)")],
    "set_dustblock on a tile with palette above 1", "the palette is not that of the dustblock", PRE + """
t = Tile(sprite_set=TileSpriteSet.CITY, sprite_tile=3, sprite_palette=4); t.set_dustblock()
assert t.get_sprite_tuple() == (TileSpriteSet.CITY, 6, 1)
""")
bug("c32-b", "C32", [(T, "            edge.filth_sprite_set != TileSpriteSet.NONE_0 for edge in self.edge_data\n", "            edge.filth_sprite_set not in (TileSpriteSet.NONE_0, TileSpriteSet.NONE_7)\n            for edge in self.edge_data\n")],
    "filth of sprite set 7 only", "has_filth says no", PRE + """
t = Tile(); t.edge_data[2].filth_sprite_set = TileSpriteSet.NONE_7
assert t.has_filth()
""")
bug("c32-c", "C32", [(T, "        return SPRITE_SET_DUSTBLOCK_TILE[self.sprite_set] == self.sprite_tile", "        return SPRITE_SET_DUSTBLOCK_TILE[self.sprite_set] == self.sprite_tile and self.sprite_palette < 8")],
    "a dustblock sprite with a high palette", "is_dustblock says no", PRE + """
t = Tile(sprite_set=TileSpriteSet.FOREST, sprite_tile=13, sprite_palette=9)
assert t.is_dustblock()
""")
bug("c33-a", "C33", [(V, "        super().__init__(dict(value or {}))", "        super().__init__(dict(value) if value is None or len(value) < 9 else value) if value else super().__init__({})")],
    "two structs made from one large dictionary", "they share their contents", PRE + """
d = {"k%d" % i: VariableInt(i) for i in range(12)}
a, b = VariableStruct(d), VariableStruct(d)
a.value["new"] = VariableInt(1)
assert "new" not in b.value
""")
bug("c33-d", "C33", [(L, "        self.entities: Dict[int, Tuple[float, float, Entity]] = {}\n", "        self.entities: Dict[int, Tuple[float, float, Entity]] = (\n            {} if parent is None else parent.entities\n        )\n"),
                     ],
    "an entity in a level (its backdrop shares the dictionary)", "the backdrop holds the level's entities", PRE + """
lv = Level(); lv.add_entity(0.0, 0.0, Apple())
assert not lv.backdrop.entities
""")
# C01
bug("c01-n", "C01", [(T, "            dust_data[off >> 3] |= (sset | (0x8 if spike else 0)) << (off & 0x7)", "            dust_data[off >> 3] |= (sset | (0x8 if spike and sset else 0)) << (off & 0x7)")],
    "a tile with filth on one edge and the spike flag set on an edge without filth", "the flag is lost", PRE + """
lv = Level(); t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; t.edge_data[3].filth_spike = True
lv.tiles[(19, 0, 0)] = t
assert read_level(write_level(lv)).tiles == lv.tiles
""")
# C02
bug("c02-j", "C02", [(W, "            return (x, y)\n", "            return (x, y) if len(self.region_map) < 7 else (y, x)\n")],
    "seven or more regions", "regions are ordered by row first", PRE + """
import struct
lv = Level()
for i in range(8): lv.tiles[(19, 256 * (i % 4), 256 * (i // 4))] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); data = r.read_bytes(offs[-1])
ks = [struct.unpack_from("<HH", data, o + 8) for o in offs[:-1]]
assert ks == sorted(ks), ks
""")
# C03
bug("c03-j", "C03", [(R, "                if etype == \"entity\" and version > 7:\n                    has_extended_names = True", "                if etype == \"entity\" and version > 7 and not entities:\n                    has_extended_names = True")],
    "an extended entity that is not the first of its segment", "its name is not read", PRE + """
import dustmaker.entity as m
lv = Level(); lv.add_entity(0.0, 0.0, Apple()); lv.add_entity(1.0, 1.0, m.StringList())
assert [e.etype for _, _, e in read_level(write_level(lv)).entities.values()] == ["hittable_apple", "z_string_list"]
""")
# C05
bug("c05-i", "C05", [(R, "        region_offsets.append(filesize - ((self.bit_tell() - start_index) >> 3))", "        region_offsets.append(filesize - (self.bit_tell() >> 3))")],
    "a level that does not start at the beginning of its stream", "the end of the region data is computed from the start of the stream", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(); d = write_level(lv)
r = DFReader(io.BytesIO(b"xx" + d)); r.bit_seek(16)
_, offs = r.read_level_ex()
assert offs[-1] == len(r.read_bytes(10 ** 6))
""")
# C06
bug("c06-k", "C06", [(R, "                    self.read(4)\n                    self.read_6bit_str()\n", "                    self.skip(4 + 6 + 6 * len(var_name) if var_name else 16)\n")],
    "a string over 65534 bytes under the empty name", "the struct is misread", PRE + """
v = VariableStruct({"": VariableString(b"y" * 65535), "b": VariableInt(3)})
s = io.BytesIO()
with DFWriter(s, noclose=True) as w: w.write_variable(v)
assert DFReader(io.BytesIO(s.getvalue())).read_variable(VariableType.STRUCT) == v
""")
# C08
bug("c08-l", "C08", [(B, "        self._bits_left = -pos % 8\n        self._bits = 0 if self._bits_left == 0 else -1", "        if self._bits_left == -pos % 8 and pos >> 3 == self._tell >> 3 and pos != self._tell:\n            self._bits_left = 0\n        self._tell = pos\n        self._bits_left = -pos % 8\n        self._bits = 0 if self._bits_left == 0 else -1"),
                     (B, "        self.data.seek(pos // 8)\n        self._tell = pos\n", "        if pos != self._tell:\n            self.data.seek(pos // 8)\n")],
    "seeking to the current position in the middle of a byte that was read", "the next read starts a byte later", PRE + """
r = DFReader(io.BytesIO(bytes([0xA5, 0x3C, 0x7E])))
r.read(3); r.bit_seek(3)
assert r.read(13) == int.from_bytes(bytes([0xA5, 0x3C, 0x7E]), "little") >> 3 & 0x1FFF
""")
# C10 / C11
bug("c10-j", "C10", [(RP, "        to_bits=lambda x: int(round(x * 32767)),\n        version=4,\n        default=0.0,\n    ),  # MOUSE_Y", "        to_bits=lambda x: min(32766, int(round(x * 32767))),\n        version=4,\n        default=0.0,\n    ),  # MOUSE_Y")],
    "the mouse at the very bottom", "its y coordinate is one step off", PRE + """
from dustmaker.replay import *
rep = Replay(players=[PlayerData(intents={IntentStream.MOUSE_Y: [1.0]})])
s = io.BytesIO()
with DFWriter(s, noclose=True) as w: w.write_replay(rep)
assert DFReader(io.BytesIO(s.getvalue())).read_replay().players[0].intents[IntentStream.MOUSE_Y] == [1.0]
""")
bug("c10-k", "C10", [(W, "                    if len(run_lengths) > 1 and run_lengths[-1][\n                        1\n                    ] == intent_meta.to_bits(intent_meta.default):\n                        run_lengths.pop()", "                    while len(run_lengths) > 1 and run_lengths[-1][1] in (\n                        intent_meta.to_bits(intent_meta.default),\n                        0 if intent == 1 else -1,\n                    ):\n                        run_lengths.pop()")],
    "a vertical stream ending with up held", "the final presses are lost", PRE + """
from dustmaker.replay import *
rep = Replay(players=[PlayerData(intents={IntentStream.Y: [0, 1, -1, -1]})])
s = io.BytesIO()
with DFWriter(s, noclose=True) as w: w.write_replay(rep)
p = DFReader(io.BytesIO(s.getvalue())).read_replay().players[0]
assert [p.get_intent_value(IntentStream.Y, i) for i in range(4)] == [0, 1, -1, -1]
""")
bug("c11-g", "C11", [(R, "        if rep.version < 3:\n            num_players = 1\n", "        if rep.version < 3 and num_players:\n            num_players = 1\n")],
    "a version 1 file whose player count field is zero", "it has no player", PRE + """
from dustmaker.replay import *
rep = Replay(version=1, players=[PlayerData()])
s = io.BytesIO()
with DFWriter(s, noclose=True) as w: w.write_replay(rep)
d = bytearray(s.getvalue()); d[7:9] = b"\\0\\0"
assert len(DFReader(io.BytesIO(bytes(d))).read_replay().players) == 1
""")
bug("c11-h", "C11", [(R, "                entity = rep.entities.setdefault(entity_uid, replay.EntityData())\n", "                entity = rep.entities[entity_uid] = replay.EntityData()\n")],
    "a file with two records for one entity", "the frames of the first are lost", PRE + """
import struct, zlib
from dustmaker.replay import *
rep = Replay(players=[PlayerData()], entities={2: EntityData([EntityFrame(1)]), 3: EntityData([EntityFrame(2)])})
s = io.BytesIO()
with DFWriter(s, noclose=True) as w: w.write_replay(rep)
d = s.getvalue(); h = 7 + 2 + 4 + 4 + 1 + 1
raw = bytearray(zlib.decompress(d[h:]))
raw[-32:-28] = struct.pack("<I", 2)
got = DFReader(io.BytesIO(d[:h] + zlib.compress(bytes(raw)))).read_replay()
assert [f.frame for f in got.entities[2].frames] == [1, 2]
""")
# C12
# C13-C16
bug("c14-j", "C14", [(L, "            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))", "            if (pos.x, pos.y) != (0, 0):\n                pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))")],
    "translating a level whose start is at the origin", "the start stays behind", PRE + """
lv = Level(); lv.translate(48, 96)
assert (lv.start_position().x, lv.start_position().y) == (48, 96)
""")
bug("c15-d", "C15", [(E, "            areas[i] = mat.sample(*pos, with_offset=False)", "            areas[i] = mat.sample(*pos, with_offset=mat.flipped)")],
    "a checkpoint area under a flip with translation", "the area moves, so undoing does not restore it", PRE + """
import dustmaker.entity as m
lv = Level(); e = m.CheckPoint(); e.trigger_areas.append((5.0, 6.0)); lv.add_entity(0.0, 0.0, e)
f = TxMatrix.HFLIP.translate(96, 0)
lv.transform(f)
assert list(e.trigger_areas) == [(-5.0, 6.0)]
lv.transform(f)
assert list(e.trigger_areas) == [(5.0, 6.0)]
""")
bug("c16-k", "C16", [(T, "                    if dx == dy:\n                        tile.shape = TileShape.HALF_A\n", "                    if dx == dy:\n                        tile.shape = TileShape.HALF_A if dx < 8 else TileShape.FULL\n")],
    "a half tile upscaled by nine or more", "cells beyond the eighth become full", PRE + """
t = Tile(TileShape.HALF_A)
assert sum(n.shape == TileShape.HALF_A for _, _, n in t.upscale(10)) == 10
""")
# C18
bug("c18-i", "C18", [(L, "                        filth_caps[dr] = bool(edge_data.filth_sprite_set)\n", "                        filth_caps[dr] = bool(edge_data.filth_sprite_set) and not edge_data.filth_spike\n")],
    "an end of an edge with spikes", "the spikes get no cap", PRE + """
lv = Level(); t = Tile(); lv.tiles[(19, 0, 0)] = t
t.edge_data[0].visible = True; t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; t.edge_data[0].filth_spike = True
lv.calculate_edge_caps()
assert t.edge_data[0].filth_caps == (True, True)
""")
bug("c18-j", "C18", [(L, "                            or tile.get_sprite_tuple() != ntile.get_sprite_tuple()\n", "                            or tile.get_sprite_tuple()[:2] != ntile.get_sprite_tuple()[:2]\n")],
    "neighbours that differ only in palette", "they are joined", PRE + """
lv = Level()
for i in range(2):
    t = Tile(sprite_palette=i); t.edge_data[0].visible = True; lv.tiles[(19, i, 0)] = t
lv.calculate_edge_caps()
assert lv.tiles[(19, 0, 0)].edge_data[0].caps == (True, True)
""")
# C19-C21
bug("c19-e", "C19", [(L, "            self._next_id = max(self._next_id, id_num + 1)", "            self._next_id = max(self._next_id, id_num + 1) if id_num < 2 ** 31 - 2 else self._next_id + 1")],
    "an explicit id near the top", "the next automatic ids do not clear it", PRE + """
lv = Level(); lv.add_prop(0, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0), 2 ** 31 - 2)
a = lv.add_entity(0.0, 0.0, Apple())
assert a > 2 ** 31 - 2
""")
bug("c20-h", "C20", [(E, "        for i, ent_id in enumerate(ents):\n            ents[i] = id_map.get(ent_id, 0)", "        for i, ent_id in enumerate(ents):\n            if ent_id not in ents[:i] if i < 40 else True:\n                ents[i] = id_map.get(ent_id, 0)")],
    "a flag that lists the same entity twice, or an id equal to an already renumbered one", "a reference keeps its old number", PRE + """
import dustmaker.entity as m
lv = Level(); f = m.LevelEnd(); a = lv.add_entity(0.0, 0.0, Apple(), 500); lv.add_entity(0.0, 0.0, f, 501)
f.entities.append(500); f.entities.append(501); f.entities.append(500)
lv.remap_ids(501)
k = {id(e): i for i, (_, _, e) in lv.entities.items()}
ap = [i for i, (_, _, e) in lv.entities.items() if isinstance(e, Apple)][0]
assert list(f.entities) == [ap, k[id(f)], ap]
""")
bug("c21-h", "C21", [(L, "        self.props.update(copy.deepcopy(other_level.props))\n", "        self.props.update(\n            (k, (*v[:3], copy.copy(v[3]) if v[3].prop_set else v[3]))\n            for k, v in other_level.props.items()\n        )\n")],
    "merging props of set zero, then changing one", "both levels change", PRE + """
a, b = Level(), Level(); p = Prop(0, 0, False, False, 1.0, 0, 0, 0, 0); i = b.add_prop(1, 0.0, 0.0, p)
a.merge(b); p.rotation = 77
assert [v[3].rotation for v in a.props.values()] == [0]
""")
# C26-C29
bug("c26-h", "C26", [(E, "        return (sublayer + 1) * 21 + layer", "        return (sublayer + 1) * 21 + layer if sublayer < 24 or layer else 24 * 21")],
    "the last sublayer of layer zero", "the fog index is that of another sublayer", PRE + """
import dustmaker.entity as m
assert m.FogTrigger.get_layer_index(0, 24) == 25 * 21
""")
bug("c28-h", "C28", [(V, "        return self._vtype == oth._vtype and self.value == oth.value", "        return self._vtype == oth._vtype and (\n            self.value == oth.value or {self._vtype} <= {VariableType.STRING} and self.value.rstrip(b\"\\0\") == oth.value.rstrip(b\"\\0\")\n        )")],
    "strings that differ only by trailing zero bytes", "they compare equal", PRE + """
assert VariableString(b"a\\0") != VariableString(b"a")
""")
bug("c29-g", "C29", [(X, "            self[1][0] * x + self[1][1] * y + (self[1][2] if with_offset else 0),\n        )", "            self[1][0] * x + self[1][1] * y + (self[1][2] if with_offset and self[1][1] else self[1][2] * with_offset // 1),\n        )")],
    "sampling a quarter turn with a fractional translation", "y is rounded down", PRE + """
m = TxMatrix.ROTATE[1].translate(0.5, 0.5)
assert m.sample(0, 0) == (0.5, 0.5)
""")
# C30
bug("c30-j", "C30", [(W, "                        if tile.is_dustblock():\n                            dustblock_filth += 1", "                        if tile.is_dustblock() and tile.shape == 0:\n                            dustblock_filth += 1")],
    "a dustblock that is a slope", "it is not counted", PRE + """
import struct, zlib
lv = Level(); t = Tile(TileShape.HALF_A, sprite_set=TileSpriteSet.CITY); t.set_dustblock(); lv.tiles[(19, 0, 0)] = t
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert struct.unpack_from("<H", zlib.decompress(reg[17:]), 19)[0] == 1
""")
bug("c30-k", "C30", [(W, "                enemy_filth += getattr(entity, \"FILTH\", 0)\n", "                enemy_filth += getattr(entity, \"FILTH\", 0) if entity.visible else 0\n")],
    "an invisible enemy", "its filth is not counted", PRE + """
import struct, zlib
import dustmaker.entity as m
lv = Level(); lv.add_entity(0.0, 0.0, m.EnemyBear(visible=False))
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert struct.unpack_from("<H", zlib.decompress(reg[17:]), 15)[0] == 9
""")
# C31
BUGS = [b for b in BUGS if b["edits"][0][1]]
