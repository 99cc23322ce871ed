from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


MKP = "P = lambda **k: Prop(k.get('sub', 0), k.get('rot', 0), False, False, k.get('scale', 1.0), 0, 0, 0, 0)\n"

bug("c01-8a", "C01", [(R, "                        tile_flags=tile_flags,\n", "                        tile_flags=tile_flags or 0x4,\n")],
    "a tile without any flag", "the solid flag appears on reading", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(tile_flags=0)
assert read_level(write_level(lv)).tiles == lv.tiles
""")
bug("c01-8b", "C01", [(R, "            sshot_data = self.read_bytes(sshot_len)\n", "            sshot_data = self.read_bytes(sshot_len).rstrip(b\"\\0\")\n")],
    "a thumbnail ending in zero bytes", "they are dropped", PRE + """
lv = Level(); lv.sshot = b"abc\\0\\0"
assert read_level(write_level(lv)).sshot == lv.sshot
""")
bug("c01-8c", "C01", [(W, "            for id_num, x, y, entity in segment.entities:\n", "            for id_num, x, y, entity in sorted(\n                segment.entities, key=lambda ent: ent[3].etype.startswith(\"z_\")\n            ):\n"),
                      (W, "                    extra_names_writer.write_6bit_str(entity.etype)\n", "                    extra_names_writer.write_6bit_str(entity.etype or \"entity\")\n"),
                      (W, "                if entity.etype.startswith(\"z_\") or entity.etype == \"entity\":\n", "                if entity.etype.startswith(\"z_\") or entity.etype in (\"entity\", \"\"):\n")],
    "an entity with an empty type name", "it is read back under another name", PRE + """
lv = Level(); e = Entity(); e.etype = ""; i = lv.add_entity(0.0, 0.0, e)
assert read_level(write_level(lv)).entities[i][2].etype == ""
""")
bug("c02-8b", "C02", [(W, "            if x < 0:\n                x += 1 << 16\n", "            if x < -1:\n                x += 1 << 16\n            elif x == -1:\n                x = 0x7FFF\n")],
    "regions at x = -1 together with regions further left", "the region order is wrong", PRE + """
lv = Level()
for x in (-1, -256 * 5): lv.tiles[(19, x, 0)] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert [int.from_bytes(reg[o + 8:o + 10], "little") for o in offs[:-1]] == [0xFFFB, 0xFFFF]
""")
bug("c03-8a", "C03", [(R, "                    xpos = self.read_float(28, 4)\n                    ypos = self.read_float(28, 4)\n", "                    xpos = self.read(32, signed=True) / 16.0 if False else self.read_float(28, 4)\n                    ypos = self.read_float(28, 4)\n                    layer_sub = layer_sub if version > 5 else 0\n")],
    "a segment of version 5 or older with props", "the sublayer of the props is lost", PRE + """
import struct, zlib
lv = Level(); lv.level_type = 0
lv.add_prop(3, 5.0, 6.0, Prop(9, 0, False, False, 1.0, 0, 0, 0, 0), 200)
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
raw = bytearray(zlib.decompress(reg[17:]))
raw[4:6] = struct.pack("<H", 4)
raw = raw[:9] + raw[21:]  # no counters before version 5
raw[0:4] = struct.pack("<I", len(raw))
c = zlib.compress(bytes(raw))
out = Level(); DFReader(io.BytesIO(struct.pack("<II", 17 + len(c), len(raw)) + reg[8:17] + c)).read_region(out)
assert out.props[200][3].layer_sub == 9, out.props
""")
bug("c04-8a", "C04", [(W, "        compressed_data = zlib.compress(uncompressed_data)\n", "        compressed_data = zlib.compress(\n            uncompressed_data, 9 if self.bit_tell() >= 1 << 20 else -1\n        )\n")],
    "the level is written far into the stream", "its bytes differ", PRE + """
lv = Level()
for i in range(400): lv.tiles[(19, i % 20, i // 20)] = Tile(TileShape(i * 7 % 21), sprite_tile=i % 30)
s = io.BytesIO(bytes(1 << 18)); s.seek(1 << 18)
w = DFWriter(s, noclose=True); w.write_level(lv); w.close()
assert s.getvalue()[1 << 18:] == write_level(lv)
""")
bug("c05-8a", "C05", [(R, "        level._next_id = meta[\"entityUid\"]\n", "        level._next_id = min(meta[\"entityUid\"], 1 << 24)\n")],
    "a file whose next id is above 2^24", "it decreases on a metadata edit", PRE + """
lv = Level(); lv.add_entity(0.0, 0.0, Apple(), 1 << 25)
d = write_level(lv)
with DFReader(io.BytesIO(d)) as r:
    l2, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
w = DFWriter(io.BytesIO()); w.write_level_ex(l2, offs, reg)
assert w.data.getvalue()[28:32] == d[28:32]
""")
bug("c06-8a", "C06", [(W, "                for i in range(0, 1 + len(xs) // max_width):\n                    self.write(4, elem_var._vtype)\n", "                for i in range(0, 1 + len(xs) // (max_width if elem_key else 1 << 30)):\n                    self.write(4, elem_var._vtype)\n"),
                      (W, "                raise ValueError(\"VariableString length too long\")\n", "                raise ValueError(\"VariableString length too long\")  # see struct\n")],
    "a string of at least 65535 bytes under an empty key", "it is cut off", PRE + """
w = DFWriter(io.BytesIO()); v = VariableStruct({"": VariableString(b"x" * 70000), "b": VariableInt(4)})
w.write_variable(v); w.align()
assert DFReader(io.BytesIO(w.data.getvalue())).read_variable_map() == v.value
""")
bug("c07-8a", "C07", [(W, "        if rep.version not in (1, 3, 4):\n", "        if not 0 < rep.version <= 4:\n")],
    "a replay of version 2", "it is written", PRE + """
import dustmaker.exceptions
try: DFWriter(io.BytesIO()).write_replay(Replay(version=2, players=[PlayerData()]))
except dustmaker.exceptions.LevelParseException: pass
else: raise AssertionError("written")
""")
bug("c07-8b", "C07", [(V, "        for elem in self.value[1]:\n            assert isinstance(elem, self.value[0])\n            elem._assert_types()\n", "        for elem in self.value[1][:64]:\n            assert isinstance(elem, self.value[0])\n            elem._assert_types()\n")],
    "an array whose 70th element has the wrong type", "it is accepted", PRE + """
try: VariableArray(VariableInt, [VariableInt(1)] * 69 + [VariableBool(True)])
except AssertionError: pass
else: raise SystemExit(1)
""")
bug("c08-8a", "C08", [(B, "        self._tell = pos\n", "        self._tell = pos & 0xFFFFFFFF\n")],
    "a seek beyond 512 MB", "the reported position wraps", PRE + """
r = DFReader(io.BytesIO(b"abc")); r.bit_seek((1 << 32) + 16)
assert r.bit_tell() == (1 << 32) + 16
""")
bug("c08-8b", "C08", [(B, "            self._bits = new_bytes[0] >> (8 - self._bits_left)\n", "            self._bits = (new_bytes[0] >> (8 - self._bits_left)) & (\n                0x7F if bits > 64 else 0xFF\n            )\n            if bits > 64 and self._bits_left == 7:\n                self._bits &= 0x3F\n")],
    "a read of more than 64 bits right after a seek to the second bit of a byte", "a bit is lost", PRE + """
r = DFReader(io.BytesIO(b"\\xff" * 20)); r.bit_seek(9)
assert r.read(70) == (1 << 70) - 1
""")
bug("c09-8a", "C09", [(W, "        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))\n", "        fpart = int((val - floor(val)) * (2 ** (max(fbits, 2) - 1)))\n")],
    "a fraction width of one bit", "fractions are written into it", PRE + """
w = DFWriter(io.BytesIO()); w.write_float(8, 1, 2.5); w.align()
assert DFReader(io.BytesIO(w.data.getvalue())).read_float(8, 1) == 2.0
""")
bug("c09-8b", "C09", [(R, "        return sign * ipart + 1.0 * fpart / (1 << (fbits - 1))\n", "        return sign * (ipart & ~1 if ibits > 32 and ipart >> 24 else ipart) + 1.0 * fpart / (1 << (fbits - 1))\n")],
    "a whole number above 2^24 with more than 32 integer bits", "odd numbers become even", PRE + """
w = DFWriter(io.BytesIO()); w.write_float(40, 8, float((1 << 25) + 1)); w.align()
assert DFReader(io.BytesIO(w.data.getvalue())).read_float(40, 8) == (1 << 25) + 1
""")
bug("c10-8a", "C10", [(RP, "        to_repr=MouseState,\n", "        to_repr=lambda x: MouseState(x & 0x1F),\n")],
    "mouse state bits beyond the five named ones", "they are dropped", PRE + """
from dustmaker.replay import *
rep = Replay(players=[PlayerData(intents={IntentStream.MOUSE_STATE: [64, 3]})]); w = DFWriter(io.BytesIO()); w.write_replay(rep)
assert DFReader(io.BytesIO(w.data.getvalue())).read_replay().players[0].get_intent_value(IntentStream.MOUSE_STATE, 0) == 64
""")
bug("c11-8a", "C11", [(R, "                entity = rep.entities.setdefault(entity_uid, replay.EntityData())\n", "                entity = rep.entities.setdefault(\n                    entity_uid if frame_count else replay_uid, replay.EntityData()\n                )\n")],
    "an entity record without frames", "it appears under another id", PRE + """
from dustmaker.replay import *
rep = Replay(players=[PlayerData()], entities={77: EntityData(), 5: EntityData([EntityFrame(1)])}); w = DFWriter(io.BytesIO()); w.write_replay(rep)
assert set(DFReader(io.BytesIO(w.data.getvalue())).read_replay().entities) == {77, 5}
""")
bug("c12-8a", "C12", [(R, "        for _ in range(segments):\n            sub_reader.align()\n            sub_reader.read_segment(level, offx * 256, offy * 256)\n", "        done = 0\n        while done < segments:\n            sub_reader.align()\n            before = sub_reader.bit_tell()\n            sub_reader.read_segment(level, offx * 256, offy * 256)\n            done += sub_reader.bit_tell() > before\n")],
    "a segment announcing a size of zero", "reading never ends", PRE + """
import struct, zlib, signal
signal.alarm(20)
lv = Level(); lv.tiles[(19, 0, 0)] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
raw = bytearray(zlib.decompress(reg[17:])); raw[0:4] = bytes(4); c = zlib.compress(bytes(raw))
try: DFReader(io.BytesIO(struct.pack("<I", 17 + len(c)) + reg[4:17] + c)).read_region(Level())
except Exception: pass
""")
bug("c12-8b", "C12", [(R, "        sub_reader = DFReader(\n            io.BytesIO(zlib.decompress(self.read_bytes(region_len - 17)))\n        )\n", "        sub_reader = DFReader(\n            io.BytesIO(zlib.decompressobj().decompress(self.read_bytes(region_len - 17)))\n        )\n")],
    "a level cut inside the checksum of its last region", "the truncation goes unnoticed", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile()
try: read_level(write_level(lv)[:-2])
except Exception: pass
else: raise SystemExit(1)
""")
bug("c14-8a", "C14", [(E, "        self.width = int(abs(tw))\n", "        self.width = int(abs(tw)) & 0xFFFF\n")],
    "a kill box wider than 65535 pixels", "its width wraps", PRE + """
lv = Level(); d = DeathZone(); d.width = 70000; d.height = 3; lv.add_entity(0.0, 0.0, d); lv.flip_horizontal()
assert d.width == 70000
""")
bug("c14-8b", "C14", [(L, "            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))\n", "            if pos_tx or pos_ty:\n                pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))\n")],
    "a translation that moves a player start exactly to the origin", "the player start stays where it was", PRE + """
lv = Level(); p = lv.start_position(2); p.x, p.y = 96, -48; lv.translate(-96, 48)
assert (lv.start_position(2).x, lv.start_position(2).y) == (0, 0)
""")
bug("c16-8a", "C16", [(T, "                if vert_a[0] != vert_b[0] and x in (0, factor * 2):\n", "                if vert_a[0] != vert_b[0] and x in (0, factor * 2 & 0x3F):\n")],
    "upscaling by 32 or more", "caps at the right end are lost", PRE + """
t = Tile(); t.edge_data[0].caps = (True, True); t.edge_data[0].angles = (3, 4)
out = {(x, y): n for x, y, n in t.upscale(33)}
assert out[(32, 0)].edge_data[0].angles[1] == 4
""")
bug("c17-8a", "C17", [(L, "                    edat.visible = visible_callback(x, y, side, tile, ntile)\n", "                    key = (side, tile.get_sprite_tuple(), ntile.get_sprite_tuple())\n                    if key not in _asked:\n                        _asked[key] = visible_callback(x, y, side, tile, ntile)\n                    edat.visible = _asked[key]\n"),
                      (L, "        neighbor_dir = ((0, -1), (0, 1), (-1, 0), (1, 0))\n", "        neighbor_dir = ((0, -1), (0, 1), (-1, 0), (1, 0))\n        _asked: dict = {}\n")],
    "a callback deciding by position and two seams of the same sprites", "the second seam is decided like the first", PRE + """
lv = Level()
for x in range(4): lv.tiles[(19, x, 0)] = Tile(sprite_tile=1 + x % 2)
lv.calculate_edge_visibility(visible_callback=lambda x, y, s, a, b: x == 2)
assert [lv.tiles[(19, x, 0)].edge_data[3].visible for x in (0, 2)] == [False, True]
""")
bug("c20-8a", "C20", [(E, "        for i, nd_id in enumerate(nds):\n            nds[i] = id_map.get(nd_id, 0)\n", "        for i, nd_id in enumerate(nds):\n            nds[i] = id_map.get(nd_id, nd_id if i and nd_id in id_map.values() else 0)\n")],
    "a dangling camera node reference whose id is handed out by the renumbering", "it designates another entity", PRE + """
lv = Level(); c = CameraNode(); c.nodes.append(205); c.nodes.append(101); lv.add_entity(0.0, 0.0, c, 205); lv.add_entity(0.0, 0.0, Apple(), 300)
lv.remap_ids()
assert list(c.nodes) == [100, 0]
""")
bug("c20-8b", "C20", [(L, "        for _, _, entity in self.entities.values():\n            entity.remap_ids(entity_remap)\n", "        for _, _, entity in self.entities.values():\n            if entity.variables:\n                entity.remap_ids({**prop_remap, **entity_remap})\n")],
    "a reference to a missing entity whose id is used by a prop", "it becomes the id of the prop", PRE + MKP + """
lv = Level(); c = CameraNode(); c.nodes.append(120); lv.add_entity(0.0, 0.0, c, 205); lv.add_prop(1, 0.0, 0.0, P(), 120)
lv.remap_ids()
assert list(c.nodes) == [0]
""")
bug("c21-8a", "C21", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))\n", "        self.tiles.update(copy.deepcopy(other_level.tiles)); self.sshot = self.sshot or other_level.sshot\n")],
    "merging a level with a thumbnail into one without", "the thumbnail appears", PRE + """
a, b = Level(), Level(); b.sshot = b"x"; a.merge(b)
assert a.sshot == b""
""")
bug("c22-8a", "C22", [(CV, "        return VariableString(jvars.encode(\"latin1\"))\n", "        return VariableString(\n            jvars.encode(\"latin1\").replace(b\"\\r\\n\", b\"\\n\")\n        )\n")],
    "a string with a carriage return before a newline", "the return is lost", PRE + """
from dustmaker.cmd.variables import *
v = VariableStruct({"a": VariableString(b"x\\r\\ny")})
s, j = variables_to_json(v)
assert json_to_variables(s, j) == v
""")
bug("c22-8b", "C22", [(CV, "            if r_subschema is None:\n", "            if not r_subschema:\n")],
    "array elements where a key is first an empty struct and later another type", "conflicting types are accepted", PRE + """
from dustmaker.cmd.variables import *
v = VariableArray(VariableStruct, [VariableStruct({"a": VariableStruct()}), VariableStruct({"a": VariableInt(3)})])
try:
    s, j = variables_to_json(v)
except ValueError: raise SystemExit(0)
assert json_to_variables(s, j) == v
""")
bug("c23-8a", "C23", [(CT, "            if not args.force and os.path.exists(args.image):\n", "            if not args.force and os.path.exists(args.image) and os.path.getsize(args.image):\n")],
    "extracting over an existing empty file without force", "it is overwritten", CLI + """
with tempfile.TemporaryDirectory() as d:
    lv = Level(); lv.sshot = b"png"; open(d + "/l", "wb").write(write_level(lv)); open(d + "/i", "wb").close()
    cli("thumbnail", d + "/l", d + "/i")
    assert open(d + "/i", "rb").read() == b""
""")
bug("c24-8a", "C24", [(CX, "            level.upscale(args.upscale, mat=mat)\n", "            level.upscale(args.upscale, mat=mat)\n            level.sshot = b\"\" if args.upscale > 4 else level.sshot\n"), (CX, "            if level.level_type == LevelType.NORMAL:\n", "            if level.level_type in (LevelType.NORMAL,):\n")],
    "upscaling by more than 4", "the thumbnail is lost", CLI + """
with tempfile.TemporaryDirectory() as d:
    lv = Level(); lv.sshot = b"png"; open(d + "/l", "wb").write(write_level(lv))
    cli("transform", d + "/l", d + "/o", "--upscale", 5)
    assert read_level(open(d + "/o", "rb").read()).sshot == b"png"
""")
bug("c25-8a", "C25", [(CS, "        key = LEVEL_KEYS.get(level, -1)\n", "        key = LEVEL_KEYS.get(level.strip(), -1)\n")],
    "a score for a level whose name carries surrounding blanks", "the unknown level is kept", PRE + """
from dustmaker.cmd.save_convert import migrate_stats
s = VariableStruct({"file_name": VariableString(b"downhill "), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(1)})
assert not migrate_stats({"score": VariableArray(VariableStruct, [s])})["k_score"].value[1]
""")
bug("c25-8b", "C25", [(CS, "        if key > 0:\n            keys_used[key - 1] += 1\n", "        if key > 0 and score[\"combo\"].value >= 0:\n            keys_used[key - 1] += 1\n")],
    "a score with a negative combo", "its key is not counted", PRE + """
from dustmaker.cmd.save_convert import migrate_stats
s = VariableStruct({"file_name": VariableString(b"momentum"), "combo": VariableInt(-1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(1)})
assert list(migrate_stats({"score": VariableArray(VariableStruct, [s])})["k_wood_used"]) == [1]
""")
bug("c26-8a", "C26", [(E, "        subcls = cls._known_types.get(etype)\n", "        subcls = cls._resolved.setdefault(etype, cls._known_types.get(etype))\n"), (E, "    _known_types: Dict[str, Type[\"Entity\"]] = {}\n", "    _known_types: Dict[str, Type[\"Entity\"]] = {}\n    _resolved: Dict[str, Optional[Type[\"Entity\"]]] = {}\n")],
    "a type read once before its class is added", "the class is not used", PRE + """
lv = Level(); e = Entity(); e.etype = "zz_new"; i = lv.add_entity(0.0, 0.0, e); d = write_level(lv)
read_level(d)
class New(Entity): TYPE_IDENTIFIER = "zz_new"
assert type(read_level(d).entities[i][2]) is New
""")
bug("c27-8a", "C27", [(V, "            return etype(*val)\n", "            result = etype(val[0])\n            result.value = val\n            result._assert_types()\n            return result\n")],
    "an array of arrays given the contents of another array", "later changes to the other array show in it", PRE + """
a = VariableArray(VariableInt, [VariableInt(1)]); o = VariableArray(VariableArray); o.append(a.value)
a.append(2)
assert len(o.value[1][0]) == 1
""")
bug("c27-8b", "C27", [(V, "        self.value[1].insert(index, self._box(value))\n", "        self.value[1].insert(index if index >= -len(self) else len(self), self._box(value))\n")],
    "an insertion at a negative index beyond the start", "the element goes to the end", PRE + """
a = VariableArray(VariableInt, [VariableInt(1)]); a.insert(-5, 9)
assert list(a) == [9, 1]
""")
bug("c28-8a", "C28", [(V, "        return self._vtype == oth._vtype and self.value == oth.value\n", "        return self._vtype == oth._vtype and self.value == oth.value and (self._vtype != VariableType.STRUCT or list(self.value) == list(oth.value))\n")],
    "structs built in different key order", "they compare unequal", PRE + """
assert VariableStruct({"a": VariableInt(1), "b": VariableInt(2)}) == VariableStruct({"b": VariableInt(2), "a": VariableInt(1)})
""")
bug("c29-8a", "C29", [(X, "        return self.determinant < 0\n", "        return self.determinant < -1e-9\n")],
    "a reflecting matrix of tiny scale", "it is not reported as flipped", PRE + """
from dustmaker.transform import TxMatrix
assert (TxMatrix.HFLIP * 1e-5).flipped
""")
bug("c29-8b", "C29", [(X, "        return math.sqrt(abs(self.determinant))\n", "        return math.hypot(self[0][0], self[1][0])\n")],
    "a matrix that is not a similarity", "the scale is that of one axis", PRE + """
from dustmaker.transform import TxMatrix
assert TxMatrix([[4, 0, 0], [0, 1, 0], [0, 0, 1]]).scale == 2
""")
bug("c30-8a", "C30", [(W, "                enemy_filth += getattr(entity, \"FILTH\", 0)\n", "                enemy_filth += getattr(entity, \"FILTH\", 0) if entity.visible else 0\n")],
    "an invisible enemy", "it is not counted", PRE + """
import zlib
lv = Level(); e = EnemyBear(); e.visible = False; lv.add_entity(0.0, 0.0, e)
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert zlib.decompress(reg[17:])[15:17] == b"\\x09\\0"
""")
bug("c31-8a", "C31", [(B, "            self._tell = data.tell() << 3\n", "            self._tell = data.tell() << 3 if data.seekable() else 0\n")],
    "a stream object that can tell but has no seekable method", "it is refused", PRE + """
class S:
    def __init__(self): self.b = io.BytesIO(b"abcdef")
    def read(self, n): return self.b.read(n)
    def tell(self): return self.b.tell()
    def close(self): pass
s = S(); s.read(2)
assert DFReader(s).bit_tell() == 16
""")
bug("c32-8a", "C32", [(T, "        self.sprite_palette = 1\n", "        self.sprite_palette, self.tile_flags = 1, TileFlag(self.tile_flags | 4)\n")],
    "a tile without the solid flag turned into a dustblock", "its flags change", PRE + """
t = Tile(tile_flags=0); t.set_dustblock()
assert t.tile_flags == 0
""")
bug("c33-8a", "C33", [(V, "        super().__init__(dict(value or {}))\n", "        super().__init__(dict(value) if value and len(value) < 32 else value or {})\n")],
    "a struct made from a dictionary of 32 or more entries", "they share it", PRE + """
d = {"k%d" % i: VariableInt(i) for i in range(40)}; s = VariableStruct(d); d["x"] = VariableInt(1)
assert "x" not in s.value
""")
