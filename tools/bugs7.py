from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


MKP = "P = lambda **k: Prop(k.get('sub', 0), k.get('rot', 0), False, False, k.get('scale', 1.0), 0, 0, 0, 0)\n"

# ---- C01
bug("c01-7b", "C01", [(W, "                self.write_variable(VariableStruct(entity.variables))\n", "                self.write_variable(\n                    VariableStruct(\n                        {k: v for k, v in entity.variables.items() if k != \"width\" or v.value != 500}\n                    )\n                )\n")],
    "a trigger with its width stored explicitly at the default", "the variable is dropped", PRE + """
lv = Level(); t = Trigger(); t.width = 500; i = lv.add_entity(0.0, 0.0, t)
assert read_level(write_level(lv)).entities[i][2].variables == t.variables
""")
bug("c01-7c", "C01", [(T, "            edge.visible = test_offset(4 + side)\n", "            edge.visible = test_offset(4 + side) or edge.solid and self.shape > 16\n")],
    "a half tile with a solid but invisible edge", "the edge comes back visible", PRE + """
lv = Level(); t = Tile(TileShape.HALF_B); t.edge_data[1].solid = True; lv.tiles[(19, 0, 0)] = t
assert read_level(write_level(lv)).tiles == lv.tiles
""")
bug("c01-7e", "C01", [(W, "                scale_lg = int(round(log(prop.scale) / log(50.0) * 24.0)) + 32\n", "                scale_lg = int(log(prop.scale) / log(50.0) * 24.0 + 32.5) if prop.scale > 0.1 else int(round(log(prop.scale) / log(50.0) * 24.0 + 0.5)) + 32\n")],
    "a prop with one of the smallest scales", "its scale changes", PRE + MKP + """
lv = Level(); i = lv.add_prop(1, 0.0, 0.0, P(scale=50.0 ** (-17 / 24)))
assert abs(read_level(write_level(lv)).props[i][3].scale - 50.0 ** (-17 / 24)) < 1e-9
""")
# ---- C02
bug("c02-7b", "C02", [(W, "        self.write(16, len(region.segment_map))\n", "        self.write(16, len(region.segment_map) & 0xFF)\n")],
    "a region with all 256 segments", "the segment count wraps to zero", PRE + """
lv = Level()
for i in range(256): lv.tiles[(19, 16 * (i % 16), 16 * (i // 16))] = Tile()
assert len(read_level(write_level(lv)).tiles) == 256
""")
bug("c02-7c", "C02", [(W, "        self.write(8, 1 if region.backdrop.present else 0)\n", "        self.write(8, len(region.backdrop.props) + 1 & 0xFF if region.backdrop.present else 0)\n")],
    "a backdrop with props", "the backdrop flag is not 1", PRE + MKP + """
lv = Level(); lv.backdrop.add_prop(1, 0.0, 0.0, P())
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); data = r.read_bytes(offs[-1])
assert data[16] == 1
""")
# ---- C03
bug("c03-7b", "C03", [(R, "                if etype == \"entity\" and version > 7:\n                    has_extended_names = True\n", "                if etype == \"entity\" and version > 7:\n                    has_extended_names = not entities or entities[0][0] != \"entity\" or True if entities else len(variables_seen := []) == 0\n"),
                      (R, "                level.entities.pop(id_num, None)\n", "                if level.entities.get(id_num, (0, 0, None))[2].__class__ is Entity:\n                    continue\n                level.entities.pop(id_num, None)\n")],
    "a repeated entity id whose first record is of an unknown type", "the first record wins", PRE + """
lv = Level(); e = Entity(); e.etype = "foo"; lv.add_entity(5.0, 0.0, e, 200); lv.add_entity(900.0, 0.0, Apple(), 201)
d = write_level(lv)
import struct, zlib
with DFReader(io.BytesIO(d)) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
raw = zlib.decompress(reg[17:])
n = struct.unpack_from("<I", raw, 0)[0]
raw2 = bytearray(raw); raw2[n + 25 + 2:n + 25 + 6] = struct.pack("<I", 200)
c = zlib.compress(bytes(raw2)); reg2 = struct.pack("<I", 17 + len(c)) + reg[4:17] + c
out = Level(); DFReader(io.BytesIO(reg2)).read_region(out)
assert isinstance(out.entities[200][2], Apple)
""")
bug("c03-7c", "C03", [(R, "        for _ in range(segments):\n            sub_reader.align()\n            sub_reader.read_segment(level, offx * 256, offy * 256)\n", "        for _ in range(segments):\n            sub_reader.align()\n            target = level if offx < 0x4000 else Level()\n            sub_reader.read_segment(target, offx * 256, offy * 256)\n")],
    "contents in the region columns from 16384 on", "they are dropped", PRE + """
lv = Level(); lv.tiles[(19, 0x4000 * 256, 0)] = Tile()
assert read_level(write_level(lv)).tiles
""")
# ---- C04
bug("c04-7c", "C04", [(L, "        self._next_id = mx_id + 1\n        return mx_id\n", "        self._next_id = mx_id + 1 if reset else mx_id + 2\n        return mx_id\n")],
    "writing a level twice", "the recorded next id grows with every write", PRE + """
lv = Level(); lv.add_entity(0.0, 0.0, Apple())
assert write_level(lv) == write_level(lv)
""")
# ---- C05
bug("c05-7a", "C05", [(R, "        region_offsets.append(filesize - ((self.bit_tell() - start_index) >> 3))\n", "        region_offsets.append(filesize - ((self.bit_tell() - (start_index & 0xFFFFF)) >> 3))\n")],
    "a level stored beyond 128 KB in its stream", "the end offset is wrong", PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(); d = write_level(lv)
pad = 1 << 17
with DFReader(io.BytesIO(b"x" * pad + d)) as r:
    r.bit_seek(8 * pad); _, o = r.read_level_ex(); assert o[-1] == len(d) - (r.bit_tell() // 8 - pad)
""")
bug("c05-7b", "C05", [(W, "            for data in region_data:\n                self.write_bytes(data)\n", "            for data in filter(bytes.strip, region_data):\n                self.write_bytes(data)\n")],
    "region data given in chunks, one of which is only whitespace bytes", "the chunk is dropped", PRE + """
lv = Level(); w = DFWriter(io.BytesIO(), noclose=True)
w.write_level_ex(lv, [0, 4], iter([b"ab", b"\\n\\n"]))
""")
# ---- C06
bug("c06-7a", "C06", [(R, "                    if len(value_part.value) < max_width:\n                        break\n", "                    if len(value_part.value) < max_width or len(var_value_ctns) > 7:\n                        break\n")],
    "a string of more than half a megabyte in a struct", "it is cut off", PRE + """
v = VariableStruct({"s": VariableString(b"z" * (65535 * 8 + 3)), "t": VariableInt(1)})
s = io.BytesIO(); w = DFWriter(s, noclose=True); w.write_variable(v); w.close()
assert DFReader(io.BytesIO(s.getvalue())).read_variable(VariableType.STRUCT) == v
""")
bug("c06-7b", "C06", [(W, "                for x in arr:\n                    arrlen += len(x.value) // max_width\n", "                arrlen += sum(len(x.value) for x in arr) // max_width\n")],
    "an array of strings that together, but not alone, exceed 65535 bytes", "the element count is wrong", PRE + """
v = VariableStruct({"a": VariableArray(VariableString, [VariableString(b"z" * 40000), VariableString(b"y" * 40000)])})
s = io.BytesIO(); w = DFWriter(s, noclose=True); w.write_variable(v); w.close()
assert DFReader(io.BytesIO(s.getvalue())).read_variable(VariableType.STRUCT) == v
""")
bug("c06-7c", "C06", [(R, "            return VariableUInt(self.read(32))\n", "            return VariableUInt(self.read(32) if self.aligned() else self.read(31) | self.read(1) << 31 - (self._bits_left == 7))\n")],
    "an unsigned int with its top bit set at one bit alignment", "the value is misread", PRE + """
for off in range(8):
    s = io.BytesIO(); w = DFWriter(s, noclose=True); w.write(off, 0) if off else None; w.write_variable(VariableUInt(2 ** 31 + 5)); w.close()
    r = DFReader(io.BytesIO(s.getvalue())); r.read(off) if off else None
    assert r.read_variable(VariableType.UINT).value == 2 ** 31 + 5, off
""")
# ---- C07
bug("c07-7a", "C07", [(W, "            if arrlen > max_width:\n", "            if arrlen > max_width and len(arr) > max_width - 8:\n")],
    "an array of few but enormous strings", "the count overflows silently", PRE + """
big = VariableString(b"q" * (65535 * 33000)) if False else None
class Fake(VariableString):
    pass
s = b"q" * 65535 * 10
v = VariableArray(VariableString, [VariableString(s)] * 6000)
try:
    DFWriter(io.BytesIO()).write_variable(v)
except ValueError: pass
else: raise SystemExit(1)
""")
bug("c07-7b", "C07", [(V, "            and isinstance(self.value[0], float)\n            and isinstance(self.value[1], float)\n", "            and isinstance(self.value[0], float)\n            and isinstance(self.value[1], (float, type(None)))\n")],
    "a vector whose second component is None", "it is accepted", PRE + """
try: VariableVec2((1.0, None))
except AssertionError: pass
else: raise SystemExit(1)
""")
bug("c07-7c", "C07", [(W, "        if rep.version not in (1, 3, 4):\n", "        if not rep.version & 5:\n")],
    "writing a replay of version 5, 6 or 7", "the unknown version is written", PRE + """
from dustmaker.exceptions import LevelParseException
try: DFWriter(io.BytesIO()).write_replay(Replay(version=5, players=[PlayerData()]))
except LevelParseException: pass
else: raise SystemExit(1)
""")
# ---- C08
bug("c08-7d", "C08", [(B, "            lead_val = val & (1 << self._bits_left) - 1\n", "            lead_val = val & (1 << min(bits, self._bits_left)) - 1 if bits < 64 else val & 0xFF\n")],
    "an unaligned write of 64 or more bits", "bits spill over the lead byte", PRE + """
s = io.BytesIO(); w = DFWriter(s, noclose=True); w.write(4, 5); w.write(64, 0xFFFFFFFFFFFFFFFF); w.close()
r = DFReader(io.BytesIO(s.getvalue())); assert r.read(4) == 5 and r.read(64) == 2 ** 64 - 1
""")
# ---- C09
# ---- C10 / C11
bug("c10-7a", "C10", [(W, "                        if value != run_value and run_count > 0:\n", "                        if value is not run_value and value != run_value and run_count > 0 and run_count != 0xFFFF:\n")],
    "a run of exactly 65535 equal inputs", "it swallows the next value", PRE + """
pl = PlayerData(intents={IntentStream.JUMP: [1] * 65535 + [2, 2]}); rep = Replay(players=[pl])
s = io.BytesIO(); w = DFWriter(s, noclose=True); w.write_replay(rep); w.close()
got = DFReader(io.BytesIO(s.getvalue())).read_replay()
assert got.players[0].get_intent_value(IntentStream.JUMP, 10) == 1
assert got.players[0].intents[IntentStream.JUMP] == pl.intents[IntentStream.JUMP]
""")
bug("c11-7a", "C11", [(W, "        self.write(32, len(sub_data))\n", "        self.write(32, len(sub_data) if rep.version > 1 else len(sub_data) - 4)\n")],
    "a version 1 replay", "the uncompressed size is wrong", PRE + """
import struct
rep = Replay(version=1, players=[PlayerData()]); s = io.BytesIO(); w = DFWriter(s, noclose=True); w.write_replay(rep); w.close()
import zlib
d = s.getvalue(); assert struct.unpack_from("<I", d, 9)[0] == len(zlib.decompress(d[7 + 2 + 8 + 1 + 1:]))
""")
# ---- C12
# ---- C13
# ---- C14
bug("c14-7a", "C14", [(L, "            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))\n", "            pos.x, pos.y = (int(round(pos_tx)), int(round(pos_ty))) if player < 4 or pos.x or pos.y else (0, 0)\n")],
    "translating a level whose fourth player starts at the origin", "that start does not move", PRE + """
lv = Level(); lv.translate(48.0, 0.0)
assert [lv.start_position(p).x for p in range(1, 5)] == [48] * 4
""")
bug("c14-7b", "C14", [(E, "            areas[i] = mat.sample(*pos, with_offset=False)\n", "            areas[i] = mat.sample(*pos, with_offset=False) if i < 4 else pos\n")],
    "a checkpoint with more than four trigger areas", "the others are not transformed", PRE + """
c = CheckPoint(); 
for i in range(6): c.trigger_areas.append((1.0, 2.0))
c.transform(TxMatrix.HFLIP)
assert list(c.trigger_areas) == [(-1.0, 2.0)] * 6
""")
# ---- C15
bug("c15-7b", "C15", [(X, "                    ml[0][0] * mr[0][2] + ml[0][1] * mr[1][2] + ml[0][2],\n", "                    (ml[0][0] * mr[0][2] + ml[0][1] * mr[1][2] + ml[0][2]) % 2**32\n                    if ml[0][2] > 2**24\n                    else ml[0][0] * mr[0][2] + ml[0][1] * mr[1][2] + ml[0][2],\n")],
    "a product with a translation beyond 2^24 giving a negative result", "it wraps", PRE + """
a = TxMatrix.IDENTITY.translate(2.0 ** 25, 0.0); b = TxMatrix.IDENTITY.translate(-2.0 ** 26, 0.0)
assert (a * b)[0][2] == -2.0 ** 25
""")
# ---- C16
bug("c16-7a", "C16", [(T, "                for dy in range(ddx // 2, factor):\n", "                for dy in range(ddx // 2, factor if factor < 9 else factor - (dx == 0)):\n")],
    "upscaling a slope by nine or more", "one tile of the first column is missing", PRE + """
t = Tile(TileShape.BIG_1); out = {(x, y) for x, y, _ in t.upscale(10)}
assert (0, 9) in out
""")
# ---- C19 / C20 / C21
bug("c19-7a", "C19", [(L, "        if self.backdrop is not None:\n            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n", "        if self.backdrop is not None and (reset or not self.props):\n            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n")],
    "calculate_max_id without reset after direct insertion into the backdrop of a level with props", "the maximum misses the backdrop", PRE + MKP + """
lv = Level(); lv.add_prop(1, 0.0, 0.0, P()); lv.backdrop.props[900] = (1, 0.0, 0.0, P())
assert lv.calculate_max_id(reset=False) >= 900
""")
bug("c21-7a", "C21", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))\n", "        for key, tile in other_level.tiles.items():\n            if self.tiles.get(key) != tile:\n                self.tiles[key] = copy.deepcopy(tile) if tile.edge_data != Tile().edge_data else copy.copy(tile)\n")],
    "merging a tile with blank edges, then editing an edge", "both levels change", PRE + """
a, b = Level(), Level(); b.tiles[(19, 0, 0)] = Tile(); a.merge(b); b.tiles[(19, 0, 0)].edge_data[0].solid = True
assert not a.tiles[(19, 0, 0)].edge_data[0].solid
""")
# ---- C22-C25
bug("c23-7a", "C23", [(CV, "                elif header not in KNOWN_VAR_FILE_HEADERS:\n                    sys.stderr.write(f\"unknown file header {header}\\n\")\n                    return 1\n\n        variables", "                elif header not in KNOWN_VAR_FILE_HEADERS:\n                    sys.stderr.write(f\"unknown file header {header}\\n\")\n                    header = b\"DF_STA\" if header[:3] == b\"DF_\" and header[3:4] == b\"S\" else header\n                    if header != b\"DF_STA\":\n                        return 1\n\n        variables")],
    "updating a file with an unknown header starting with DF_S", "it is overwritten", CLI + """
import json
p = os.path.join(d, "o"); open(p, "wb").write(b"DF_SAV" + bytes(8)); q = os.path.join(d, "j"); json.dump({"schema": {}, "vars": {}}, open(q, "w"))
try: cli("variables", p, q)
except BaseException: pass
assert open(p, "rb").read()[:6] == b"DF_SAV"
""")
bug("c25-7a", "C25", [(CS, "    new_scores.sort(key=lambda score: score.value[\"file_name\"].value)\n", "    new_scores.sort(key=lambda score: score.value[\"file_name\"].value.rstrip(b\"2\"))\n")],
    "a save with mary2 before mary, or momentum2 before momentum", "the scores are not sorted by name", PRE + """
from dustmaker.cmd.save_convert import migrate_stats
def sc(n): return {"file_name": VariableString(n), "combo": VariableInt(1), "time": VariableFloat(1.0), "thorough": VariableFloat(1.0), "best_time": VariableFloat(1.0), "overall": VariableInt(1)}
stats = {"score": VariableArray(VariableStruct, [VariableStruct(sc(b"mary2")), VariableStruct(sc(b"mary"))])}
new = migrate_stats(stats)
assert [x["file_name"].value for x in new["k_score"]] == [b"mary", b"mary2"]
""")
# ---- C26-C31
bug("c26-7a", "C26", [(E, "        while len(self.gradient) > 3:\n            self.gradient.pop()\n", "        while len(self.gradient) > 3:\n            self.gradient.pop(0)\n")],
    "normalizing a fog trigger with more than three gradient colours", "the first colours are lost", PRE + """
f = FogTrigger(); f.gradient.extend([1, 2, 3, 4]); f.normalize()
assert list(f.gradient) == [1, 2, 3]
""")
bug("c30-7a", "C30", [(W, "                            if edge.filth_spike:\n                                continue\n", "                            if edge.filth_spike and edge.filth_sprite_set != TileSpriteSet.NONE_7:\n                                continue\n")],
    "spikes of sprite set 7", "they count as filth", PRE + """
import zlib, struct
lv = Level(); t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.NONE_7; t.edge_data[0].filth_spike = True; lv.tiles[(19, 0, 0)] = t
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert struct.unpack_from("<H", zlib.decompress(reg[17:]), 13)[0] == 0
""")
bug("c30-7b", "C30", [(W, "                enemy_filth += getattr(entity, \"FILTH\", 0)\n", "                enemy_filth += getattr(entity, \"FILTH\", 0) if entity.visible else 0\n")],
    "an invisible enemy", "it does not count", PRE + """
import zlib, struct
lv = Level(); e = EnemyBear(); e.visible = False; lv.add_entity(0.0, 0.0, e)
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert struct.unpack_from("<H", zlib.decompress(reg[17:]), 15)[0] == e.FILTH
""")
bug("c31-7a", "C31", [(B, "        if not self._noclose:\n            self.data.close()\n", "        if not self._noclose or self._bits_left:\n            self.data.close()\n")],
    "closing a released reader in the middle of a byte", "the stream is closed", PRE + """
s = io.BytesIO(b"abc"); r = DFReader(s, noclose=True); r.read(3); r.close()
assert not s.closed
""")
