from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# C01
bug("c01-f", "C01", [(T, "        self.sprite_palette = tile_data[10] >> 4", "        self.sprite_palette = tile_data[10] >> 4 & 0x7")],
    "a tile with palette 8 or higher", "high palettes come back reduced", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(sprite_palette=9)
assert read_level(write_level(lv)).tiles == lv.tiles
""")
bug("c01-g", "C01", [(W, "                x_int = int(abs(x))", "                x_int = int(abs(x)) & 0x3FFFFFF")],
    "a prop more than 2^26 pixels away from the origin", "far away props jump", PRE + """
lv = Level(); lv.add_prop(1, -(2.0**26) - 3, 0.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4))
assert [v[:3] for v in read_level(write_level(lv)).props.values()] == [v[:3] for v in lv.props.values()]
""")
bug("c01-h", "C01", [(W, "                    if layer == 19 and tile.has_filth():\n", "                    if layer == 19 and tile.has_filth() and len(dusts) < 255:\n")],
    "a segment completely filled with filthy tiles", "the last tile of a full filthy segment is cleaned", PRE + """
lv = Level()
for x in range(16):
    for y in range(16):
        t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; lv.tiles[(19, x, y)] = t
assert read_level(write_level(lv)).tiles == lv.tiles
""")
# C02
bug("c02-e", "C02", [(W, "        self.write(16, len(region.segment_map))\n        self.write(8, 1 if region.backdrop.present else 0)", "        self.write(16, len(region.segment_map))\n        self.write(8, min(255, len(region.backdrop.props) or 1) if region.backdrop.present else 0)")],
    "a region whose backdrop has more than one prop", "the backdrop flag of a region holds a count", PRE + """
lv = Level()
for i in range(2): lv.backdrop.add_prop(1, 5.0, 5.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4))
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert reg[16] == 1
""")
bug("c02-f", "C02", [(W, "        self.write(32, level.calculate_max_id(reset=False) + 1)", "        self.write(32, level._next_id)")],
    "a level whose props were put into the dictionary directly", "the recorded next id is already taken", PRE + """
import struct
lv = Level(); lv.entities[700] = (1.0, 2.0, Apple())
d = write_level(lv)
assert struct.unpack_from("<I", d, 16 + 12)[0] > 700
""")
# C03
bug("c03-f", "C03", [(R, "                if tile is not None:\n                    tile._unpack_dust_data(data)", "                if tile is None:\n                    break\n                tile._unpack_dust_data(data)")],
    "filth recorded for a missing tile before other filth", "filth after an orphan record is lost or misread", PRE + """
import struct, zlib
bits = []
def put(n, v): bits.extend((v >> i) & 1 for i in range(n))
put(8, 1); put(8, 19); put(10, 1); put(5, 3); put(5, 4); put(5, 0); put(3, 4)
for b in Tile()._pack_tile_data(): put(8, b)
t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY
put(10, 2)
for x in (9, 3):
    put(5, x); put(5, 4)
    for b in t._pack_dust_data(): put(8, b)
bits += [0] * (-len(bits) % 8)
body = bytes(sum(bits[i + j] << j for j in range(8)) for i in range(0, len(bits), 8))
b = struct.pack("<HBBB", 8, 0, 0, 16) + struct.pack("<IHHHH", 0, 0, 0, 0, 0) + struct.pack("<I", 3) + body
raw = struct.pack("<I", len(b) + 4) + b
comp = zlib.compress(raw)
reg = struct.pack("<IIhhHHB", 17 + len(comp), len(raw), 0, 0, 14, 1, 0) + comp
lv = Level()
with DFReader(io.BytesIO(reg)) as r: r.read_region(lv)
assert lv.tiles[(19, 3, 4)].has_filth()
""")
bug("c03-g", "C03", [(R, "                if etype == \"entity\" and version > 7:", "                if etype == \"entity\" and version == 8:")],
    "a segment of a version newer than 8 with extended names", "names of newer segments are not resolved", PRE + """
lv = Level(); e = Entity(); e.etype = "z_x"; lv.add_entity(1.0, 1.0, e)
import dustmaker.dfwriter as W
o = DFWriter.write
import zlib, struct
d = write_level(lv)
with DFReader(io.BytesIO(d)) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
raw = bytearray(zlib.decompress(reg[17:])); raw[4] = 9
comp = zlib.compress(bytes(raw))
reg = struct.pack("<I", 17 + len(comp)) + reg[4:17] + comp
out = Level()
with DFReader(io.BytesIO(reg)) as r: r.read_region(out)
assert [v[2].etype for v in out.entities.values()] == ["z_x"]
""")
bug("c03-h", "C03", [(R, "                id_num = self.read(32, True)\n                if id_num < 0:\n                    continue\n\n                layer = self.read(8)", "                id_num = self.read(32, True)\n                if id_num == -1:\n                    continue\n\n                layer = self.read(8)")],
    "a prop placeholder with a negative id other than -1", "the following records are misread", PRE + """
import struct, zlib
body = struct.pack("<Hi", 1, -7)
b = struct.pack("<HBBB", 8, 0, 0, 16) + struct.pack("<IHHHH", 0, 0, 0, 0, 0) + struct.pack("<I", 8) + body
raw = struct.pack("<I", len(b) + 4) + b + bytes(60)
comp = zlib.compress(raw)
reg = struct.pack("<IIhhHHB", 17 + len(comp), len(raw), 0, 0, 14, 1, 0) + comp
lv = Level()
with DFReader(io.BytesIO(reg)) as r: r.read_region(lv)
assert not lv.props
""")
# C04
bug("c04-e", "C04", [(W, "        rmap = _compute_region_map(level)\n        region_dir_index", "        level.props = dict(sorted(level.props.items()))\n        rmap = _compute_region_map(level)\n        region_dir_index"),
                     (W, "            for id_num, layer, x, y, prop in segment.props:", "            for id_num, layer, x, y, prop in segment.props[: 1 << 16]:")],
    "props added with descending explicit ids", "writing reorders the props of the level", PRE + """
lv = Level()
for i in (300, 200): lv.add_prop(1, 5.0, 5.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4), id_num=i)
write_level(lv)
assert list(lv.props) == [300, 200]
""")
# C05
bug("c05-d", "C05", [(W, "            for data in region_data:\n                self.write_bytes(data)", "            for data in region_data:\n                self.write_bytes(data.rstrip(b\"\\0\") if len(data) == 1 else data)")],
    "region data passed as an iterable of single bytes", "zero bytes are dropped", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile()
d = write_level(lv)
with DFReader(io.BytesIO(d)) as r:
    l2, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
o = io.BytesIO()
DFWriter(o).write_level_ex(l2, offs, [bytes((b,)) for b in reg])
assert o.getvalue() == d
""")
bug("c05-e", "C05", [(W, "        for region_offset in region_offsets[:-1]:\n            self.write(32, region_offset)\n\n        self.align()", "        for region_offset in sorted(region_offsets[:-1]):\n            self.write(32, region_offset)\n\n        self.align()")],
    "a file whose directory lists the regions in another order than they lie in the data", "the directory is reordered", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(); lv.tiles[(19, 300, 0)] = Tile()
d = write_level(lv)
with DFReader(io.BytesIO(d)) as r:
    l2, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
offs2 = [offs[1], offs[0], offs[2]]
o = io.BytesIO()
DFWriter(o, noclose=True).write_level_ex(l2, offs2, reg)
o.seek(0)
with DFReader(o) as r: assert r.read_level_ex()[1] == offs2
""")
bug("c05-f", "C05", [(R, "        level._next_id = meta[\"entityUid\"]", "        level._next_id = max(100, meta[\"entityUid\"] & 0xFFFF)")],
    "a level whose next id is beyond 65535", "metadata editing lowers the next id of the file", PRE + """
lv = Level(); lv.add_entity(1.0, 2.0, Apple(), id_num=70000)
d = write_level(lv)
with DFReader(io.BytesIO(d)) as r:
    l2, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
o = io.BytesIO()
DFWriter(o, noclose=True).write_level_ex(l2, offs, reg)
assert o.getvalue() == d
""")
# C06
bug("c06-e", "C06", [(R, "                result[var_name] = VariableString(b\"\".join(var_value_ctns))", "                result[var_name] = VariableString(b\"\".join(var_value_ctns).rstrip(b\"\\0\"))")],
    "a struct string ending in zero bytes", "trailing zero bytes are lost", PRE + """
w = io.BytesIO(); v = VariableStruct({"a": VariableString(b"x\\0")})
x = DFWriter(w, noclose=True); x.write_variable(v); x.close(); w.seek(0)
with DFReader(w) as r: assert r.read_variable(VariableType.STRUCT) == v
""")
bug("c06-f", "C06", [(W, "            if arrlen > max_width:", "            if arrlen >= max_width:")],
    "an array of exactly 65535 elements", "the longest legal array is refused", PRE + """
w = io.BytesIO(); v = VariableArray(VariableBool, [VariableBool(True)] * 65535)
x = DFWriter(w, noclose=True); x.write_variable(v); x.close(); w.seek(0)
with DFReader(w) as r: assert r.read_variable(VariableType.ARRAY) == v
""")
# C07
bug("c07-f", "C07", [(V, "        assert isinstance(self.value, int) and -(2**31) <= self.value < 2**31", "        assert isinstance(self.value, int) and -(2**31) <= self.value <= 2**31")],
    "the int 2^31", "an int out of range by one is accepted and written as its negative", PRE + """
try: VariableInt(2**31)
except AssertionError: pass
else: sys.exit(1)
""")
bug("c07-h", "C07", [(W, "            elif ord(\"a\") <= v <= ord(\"z\"):\n                self.write(6, v - ord(\"a\") + 37)", "            elif ord(\"a\") <= v <= ord(\"z\") or ch.isalpha():\n                self.write(6, (v - ord(\"a\") + 37) & 0x3F)")],
    "a key containing a letter outside ASCII", "an invalid character is written as another one", PRE + """
try: DFWriter(io.BytesIO()).write_6bit_str("caf\\xe9")
except ValueError: pass
else: sys.exit(1)
""")
bug("c07-i", "C07", [(X, "        assert mat[2] == (0, 0, 1), \"last row must always be [0, 0, 1]\"", "        assert mat[2][:2] == (0, 0) and mat[2][2] > 0, \"last row must always be [0, 0, 1]\"")],
    "a matrix whose last element is not one", "a malformed matrix is accepted", PRE + """
try: TxMatrix(((1, 0, 0), (0, 1, 0), (0, 0, 2)))
except AssertionError: pass
else: sys.exit(1)
""")
# C08
bug("c08-g", "C08", [(B, "            self._tell += len(data) << 3\n            return data", "            self._tell += num << 3\n            return data")],
    "reading more bytes than are left", "the position runs past the end of the data", PRE + """
from dustmaker.bitio import *
r = BitIOReader(io.BytesIO(b"abc")); r.read_bytes(10)
assert r.bit_tell() == 24
""")
# C09
bug("c09-d", "C09", [(W, "        ipart = abs(floor(val))\n", "        ipart = abs(floor(val)) if fbits > 1 else abs(int(val))\n")],
    "a negative fractional number written with one fraction bit", "negative numbers are rounded towards zero", PRE + """
w = io.BytesIO(); x = DFWriter(w, noclose=True); x.write_float(16, 1, -2.5); x.close(); w.seek(0)
with DFReader(w) as r: assert r.read_float(16, 1) == -3.0
""")
# C10
RPL = PRE + """
def trip(rep, **k):
    w = io.BytesIO(); x = DFWriter(w, noclose=True); x.write_replay(rep, **k); x.close(); w.seek(0)
    return DFReader(w).read_replay()
"""
bug("c10-f", "C10", [(W, "                    if len(run_lengths) > 1 and run_lengths[-1][\n                        1\n                    ] == intent_meta.to_bits(intent_meta.default):", "                    if len(run_lengths) > 1 and not run_lengths[-1][1]:")],
    "a replay whose X or Y input ends with left or up", "the last held direction is dropped", RPL + """
rep = Replay(frames=5, players=[PlayerData(intents={IntentStream.X: [0, 1, 1, -1, -1]})])
assert trip(rep).players[0].intents[IntentStream.X] == [0, 1, 1, -1, -1]
""")
bug("c10-g", "C10", [(R, "                entity = rep.entities.setdefault(entity_uid, replay.EntityData())", "                entity = rep.entities.setdefault(entity_uid & 0x7FFFFFFF, replay.EntityData())")],
    "an entity id beyond 2^31", "large entity ids change", RPL + """
rep = Replay(players=[PlayerData()], entities={2**31 + 5: EntityData([EntityFrame(1)])})
assert trip(rep).entities == rep.entities
""")
# C11
bug("c11-d", "C11", [(W, "        if rep.username or force_username:\n", "        if rep.username:\n"), (W, "        if rep.version < 3 and len(rep.players) != 1:", "        if rep.version < 3 and len(rep.players) not in (1,):")],
    "an empty username with a forced header", "the header is missing", RPL + """
w = io.BytesIO(); x = DFWriter(w, noclose=True); x.write_replay(Replay(players=[PlayerData()]), force_username=True); x.close()
assert w.getvalue().startswith(b"DF_RPL2")
""")
bug("c11-e", "C11", [(W, "            sub_writer.write(32, (pos - 32) // 8)", "            sub_writer.write(32, pos // 8)")],
    "any consumer of the input section length", "the length of the input section includes its own field", RPL + """
import zlib, struct
w = io.BytesIO(); x = DFWriter(w, noclose=True); x.write_replay(Replay(players=[PlayerData()])); x.close()
d = w.getvalue(); raw = zlib.decompress(d[7 + 2 + 4 + 4 + 1 + 1:])
n, = struct.unpack_from("<I", raw)
assert struct.unpack_from("<I", raw, 4 + n) == (0,)
""")
bug("c11-f", "C11", [(R, "        if rep.version < 3:\n            num_players = 1\n", "        if rep.version < 3:\n            num_players = num_players or 1\n")],
    "a version 1 replay with a player count field other than one", "players are invented", RPL + """
w = io.BytesIO(); x = DFWriter(w, noclose=True); x.write_replay(Replay(version=1, players=[PlayerData()])); x.close()
d = bytearray(w.getvalue()); d[7:9] = b"\\x02\\x00"
assert len(DFReader(io.BytesIO(bytes(d))).read_replay().players) == 1
""")
# C12
# C13
# C14
bug("c14-e", "C14", [(L, "            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))", "            pos.x, pos.y = int(pos_tx), int(pos_ty)")],
    "a fractional translation of a start position", "player starts are truncated instead of rounded", PRE + """
lv = Level(); p = lv.start_position(); p.x, p.y = 10, 20; lv.translate(0.75, 0.75)
assert (p.x, p.y) == (11, 21)
""")
bug("c14-f", "C14", [(P, "        self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF\n        if mat.flipped:\n            self.flip_y = not self.flip_y\n            self.rotation = -self.rotation & 0xFFFF", "        self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF\n        if mat.flipped:\n            self.flip_y = not self.flip_y\n            self.rotation = ~self.rotation & 0xFFFF")],
    "a prop in a flipped level", "prop rotations are off by one step after a flip", PRE + """
lv = Level(); lv.add_prop(1, 5.0, 5.0, Prop(0, 100, False, False, 1.0, 1, 2, 3, 4)); lv.flip_horizontal(); lv.flip_horizontal()
assert [v[3].rotation for v in lv.props.values()] == [100]
lv.flip_horizontal()
assert [v[3].rotation for v in lv.props.values()] == [65436]
""")
# C16
bug("c16-d", "C16", [(T, "                yield (int(tx), int(ty), tile)", "                if factor > 8 and tile.shape == TileShape.FULL:\n                    tile.edge_data = [TileEdgeData() for _ in TileSide]\n                yield int(tx), int(ty), tile")],
    "a rotated slope upscaled by more than eight", "outer edges of big enlarged slopes are blank", PRE + """
t = Tile(TileShape.HALF_C)
for e in t.edge_data: e.solid = True
assert sum(e.solid for _, _, n in t.upscale(9) for e in n.edge_data) == 9 * 3
""")
bug("c16-i", "C16", [(L, "        self.transform(mat * factor)\n", "        self.transform(factor * mat if factor > 1 else mat)\n        if self.backdrop is not None and factor > 4:\n            self.backdrop.tiles = {\n                (la, x - x % 1, y): t for (la, x, y), t in self.backdrop.tiles.items() if t.sprite_set\n            }\n")],
    "a backdrop tile without sprite set upscaled by more than four", "backdrop tiles are lost", PRE + """
lv = Level(); lv.backdrop.tiles[(1, 0, 0)] = Tile(sprite_set=TileSpriteSet.NONE_0); lv.upscale(5)
assert len(lv.backdrop.tiles) == 25
""")
# C18
# C20
bug("c20-d", "C20", [(L, "        for _, _, entity in self.entities.values():\n            entity.remap_ids(entity_remap)\n", "        if any(old != new for old, new in entity_remap.items()):\n            for _, _, entity in self.entities.values():\n                entity.remap_ids(entity_remap)\n")],
    "renumbering that leaves every entity id as it is while a camera node points to nothing", "a dangling reference survives", PRE + """
lv = Level(); c = CameraNode(); c.nodes.append(555); lv.add_entity(0.0, 0.0, c, id_num=100); lv.remap_ids(100)
assert list(lv.entities) == [100] and list(c.nodes) == [0]
""")
bug("c20-e", "C20", [(L, "        entity_remap = {id_num: self._gen_id() for id_num in self.entities}\n", "        entity_remap = {id_num: self._gen_id() for id_num in sorted(self.entities)}\n        entity_remap.setdefault(1, 1)\n")],
    "an entity referring to the unused id 1", "a reference to nothing is kept", PRE + """
lv = Level(); c = CameraNode(); c.nodes.append(1); lv.add_entity(0.0, 0.0, c, id_num=100); lv.remap_ids(300)
assert list(c.nodes) == [0]
""")
# C21
bug("c21-e", "C21", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))", "        self.tiles.update((k, copy.copy(v)) for k, v in other_level.tiles.items())")],
    "an edge of a merged tile is edited afterwards", "merged levels share edge data", PRE + """
a, b = Level(), Level(); b.tiles[(19, 0, 0)] = Tile(); a.merge(b)
a.tiles[(19, 0, 0)].edge_data[0].solid = True
assert not b.tiles[(19, 0, 0)].edge_data[0].solid
""")
# C22
bug("c22-f", "C22", [(CV, "            schema = merge_schema(schema, [elem_schema])", "            if len(jvar) <= 8:\n                schema = merge_schema(schema, [elem_schema])")],
    "a struct key that first appears in the ninth element of an array", "the document cannot be converted back", PRE + """
from dustmaker.cmd.variables import *
v = VariableArray(VariableStruct, [VariableStruct({})] * 8 + [VariableStruct({"a": VariableInt(1)})])
assert json_to_variables(*variables_to_json(v)) == v
""")
bug("c22-g", "C22", [(CV, "        return (\"string\", var.value.decode(\"latin1\"))", "        return (\"string\", var.value.decode(\"cp1252\" if b\"\\x80\" in var.value else \"latin1\"))")],
    "a string with the byte 0x80", "the euro byte cannot be converted back", PRE + """
from dustmaker.cmd.variables import *
v = VariableString(b"\\x80")
assert json_to_variables(*variables_to_json(v)) == v
""")
# C23, C24, C25
bug("c23-h", "C23", [(CT, "            with open(args.image, \"wb\") as fout:\n                fout.write(level.sshot)", "            with open(args.image, \"wb\") as fout:\n                fout.write(level.sshot.rstrip(b\"\\n\"))")],
    "a thumbnail ending in a newline", "the extracted thumbnail is shortened", CLI + """
lv = Level(); lv.sshot = b"abc\\n"; p = put("l", write_level(lv)); cli("thumbnail", p, os.path.join(d, "i"))
assert get("i") == b"abc\\n"
""")
bug("c24-f", "C24", [(CX, "        if args.upscale > 1:\n", "        if args.upscale > 1 and level.tiles:\n")],
    "upscaling a level that has props and entities but no tiles", "such levels are not enlarged", CLI + """
lv = Level(); lv.add_entity(10.0, 20.0, Apple()); p = put("l", write_level(lv)); cli("transform", p, os.path.join(d, "o"), "--upscale", "2")
assert [v[:2] for v in read_level(get("o")).entities.values()] == [(20.0, 40.0)]
""")
SV = CLI + """
def conv(stats):
    w = io.BytesIO(); x = DFWriter(w, noclose=True); x.write_var_file(b"DF_STA", stats); x.close()
    p = put("s0", w.getvalue()); cli("save_convert", p, os.path.join(d, "s1"))
    return DFReader(io.BytesIO(get("s1"))).read_var_file(b"DF_STA")
def score(name):
    return VariableStruct({"file_name": VariableString(name), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(1)})
"""
bug("c25-e", "C25", [(CS, "        if key > 0:\n            keys_used[key - 1] += 1", "        if key > 0 and keys_used[key - 1] < 12:\n            keys_used[key - 1] += 1")],
    "more than twelve scores of one key type", "used keys are capped", """
import sys
from dustmaker.cmd.save_convert import *
names = [k for k, v in LEVEL_KEYS.items() if v == 1]
s = [VariableStruct({"file_name": VariableString(n), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(1)}) for n in names]
r = migrate_stats({"score": [x.value for x in s]})
assert r["k_wood_used"][0] == len(s), (r["k_wood_used"][0], len(s))
""")
# C26-C29
bug("c26-e", "C26", [(E, "        if not isinstance(var, prop_type):\n            raise ValueError(\"unexpected property type\")", "        if not isinstance(var, prop_type) and not isinstance(default, float):\n            raise ValueError(\"unexpected property type\")")],
    "a float accessor over a variable that holds an int", "the wrong type is returned without an error", PRE + """
import dustmaker.entity as m
for c in vars(m).values():
    if isinstance(c, type) and issubclass(c, Entity) and c is not Entity:
        for n, p in vars(c).items():
            if isinstance(p, property) and isinstance(getattr(c(), n), float):
                e = c(); setattr(e, n, 1.5); k, = e.variables
                e.variables[k] = VariableInt(3)
                try: getattr(e, n)
                except ValueError: continue
                sys.exit(1)
""")
bug("c26-f", "C26", [(E, "        subcls = cls._known_types.get(etype)\n", "        subcls = cls._known_types.get(etype.rstrip(\"_\"))\n")],
    "an entity type name that is a known name with a trailing underscore", "the entity changes its type", PRE + """
lv = Level(); e = Entity(); e.etype = "check_point_"; lv.add_entity(0.0, 0.0, e)
assert [v[2].etype for v in read_level(write_level(lv)).entities.values()] == ["check_point_"]
""")
bug("c27-d", "C27", [(V, "        if etype is VariableArray:\n            return etype(*val)\n", "        if etype is VariableArray:\n            return etype(val[0], val[1][:64])\n")],
    "appending a nested array of more than 64 elements", "long nested arrays are cut", PRE + """
a = VariableArray(VariableArray); a.append((VariableInt, [VariableInt(i) for i in range(65)]))
assert len(a[0][1]) == 65
""")
bug("c29-d", "C29", [(X, "        return self.determinant < 0", "        return self.determinant < -1e-3")],
    "a mirrored matrix with a tiny scale", "the flip of small matrices is not reported", PRE + """
assert TxMatrix(((-0.01, 0, 0), (0, 0.01, 0), (0, 0, 1))).flipped
""")
# C30
bug("c30-g", "C30", [(W, "                            if edge.filth_spike:\n                                continue\n", "                            if edge.filth_spike and edge.visible:\n                                continue\n")],
    "spikes on an invisible edge", "hidden spikes count as filth", _m.FV + """
t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; t.edge_data[0].filth_spike = True
lv = Level(); lv.tiles[(19, 0, 0)] = t
assert totals(lv)[0][0] == 0
""")
bug("c30-h", "C30", [(T, "        return SPRITE_SET_DUSTBLOCK_TILE[self.sprite_set] == self.sprite_tile", "        return (\n            SPRITE_SET_DUSTBLOCK_TILE[self.sprite_set] == self.sprite_tile\n            and self.sprite_palette == 1\n        )")],
    "a dustblock of another palette", "dustblocks of other palettes are not counted", _m.FV + """
t = Tile(sprite_set=TileSpriteSet.FOREST, sprite_tile=13, sprite_palette=3)
lv = Level(); lv.tiles[(19, 0, 0)] = t
assert totals(lv)[0][3] == 1
""")
# C31
