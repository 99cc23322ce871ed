from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# C01
bug("c01-j", "C01", [(R, "            sshot_data = self.read_bytes(sshot_len)", "            sshot_data = self.read_bytes(min(sshot_len, 0x10000))\n            self.skip(8 * max(0, sshot_len - 0x10000))")],
    "a thumbnail over 64 KiB", "large thumbnails are cut", PRE + """
lv = Level(); lv.sshot = bytes(range(256)) * 257
assert read_level(write_level(lv)).sshot == lv.sshot
""")
bug("c01-k", "C01", [(R, "                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = Tile(\n                        TileShape(shape & 0x1F),", "                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = Tile(\n                        TileShape(shape & 0xF) if layer > 19 else TileShape(shape & 0x1F),")],
    "a half tile on the topmost layer", "shapes above 15 change on layer 20", PRE + """
lv = Level(); lv.tiles[(20, 3, 4)] = Tile(TileShape.HALF_B)
assert read_level(write_level(lv)).tiles == lv.tiles
""")
bug("c01-l", "C01", [(W, "        tiles = [(i, segment.tiles[i]) for i in range(21) if segment.tiles[i]]", "        tiles = [(i, segment.tiles[i]) for i in range(21) if segment.tiles[i]][:16]")],
    "one segment with tiles on more than 16 layers", "the upper layers of the segment are lost", PRE + """
lv = Level()
for l in range(21): lv.tiles[(l, 2, 2)] = Tile()
assert read_level(write_level(lv)).tiles == lv.tiles
""")
bug("c01-m", "C01", [(R, "                rotation = self.read(16)\n                layer = self.read(8)\n                faceX", "                rotation = self.read(16)\n                layer = self.read(8) & 0x3F\n                faceX")],
    "an entity on layer 64 or above", "the entity layer changes", PRE + """
lv = Level(); e = Apple(); e.layer = 130; lv.add_entity(0.0, 0.0, e)
assert [v[2].layer for v in read_level(write_level(lv)).entities.values()] == [130]
""")
# C02
bug("c02-h", "C02", [(W, "        self.write(32, len(uncompressed_data))\n        self.write(16, x)", "        self.write(32, len(uncompressed_data) if not region.backdrop.present else len(uncompressed_data) + 1)\n        self.write(16, x)")],
    "a region with a backdrop", "the recorded size of the region is off by one", PRE + """
import struct, zlib
lv = Level(); lv.backdrop.tiles[(19, 0, 0)] = Tile()
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
assert struct.unpack_from("<I", reg, 4)[0] == len(zlib.decompress(reg[17:]))
""")
# C03
bug("c03-i", "C03", [(R, "                    x_scale = (self.read(4) & 0x7) ^ 0x4", "                    x_scale = self.read(4) ^ 0x4")],
    "a prop record with the unused top bit of the x scale set", "the prop scale becomes huge", PRE + """
import struct, zlib
lv = Level(); lv.add_prop(1, 5.0, 6.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0))
with DFReader(io.BytesIO(write_level(lv))) as r:
    _, offs = r.read_level_ex(); reg = r.read_bytes(offs[-1])
raw = bytearray(zlib.decompress(reg[17:]))
bit = 200 + 16 + 32 + 8 + 8 + 1 + 27 + 3
raw[bit // 8] |= 1 << bit % 8
c = zlib.compress(bytes(raw)); reg = struct.pack("<I", 17 + len(c)) + reg[4:17] + c
out = Level()
with DFReader(io.BytesIO(reg)) as r: r.read_region(out)
assert [v[3].scale for v in out.props.values()] == [1.0]
""")
# C04
# C05
BUGS[-1]["prop"] = "C07"
BUGS[-1]["id"] = "c07-j"
# C06
bug("c06-h", "C06", [(W, "                for x in arr:\n                    arrlen += len(x.value) // max_width\n", "                arrlen += sum(len(x.value) for x in arr) // max_width\n")],
    "an array of strings that together but not alone exceed 65535 bytes", "the array count is wrong", PRE + """
v = VariableArray(VariableString, [VariableString(b"a" * 40000), VariableString(b"b" * 40000)])
w = DFWriter(io.BytesIO()); w.write_variable(VariableStruct({"a": v, "b": VariableInt(3)})); w.flush()
r = DFReader(io.BytesIO(w.data.getvalue()))
assert r.read_variable_map() == {"a": v, "b": VariableInt(3)}
""")
# C08
bug("c08-k", "C08", [(B, "        if val < 0:\n            val += 1 << bits\n", "        if val < 0:\n            val += 1 << (bits if bits < 64 else 64)\n")],
    "a negative value written with more than 64 bits", "the sign is lost or the write fails", PRE + """
w = DFWriter(io.BytesIO()); w.write(72, -5); w.flush()
assert w.data.getvalue() == (-5).to_bytes(9, "little", signed=True)
""")
# C09
bug("c09-f", "C09", [(W, "        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))", "        fpart = int((val - floor(val)) * (2 ** (fbits - 1)) + 1e-9)")],
    "a number just below a step of the fraction", "the fraction is rounded up instead of down", PRE + """
w = DFWriter(io.BytesIO()); w.write_float(4, 9, 1 - 2.0**-40); w.flush()
r = DFReader(io.BytesIO(w.data.getvalue()))
assert r.read_float(4, 9) == 255 / 256
""")
# C10
bug("c10-i", "C10", [(RP, "        to_repr=MouseState,\n        to_bits=int,", "        to_repr=MouseState,\n        to_bits=lambda x: int(x) & 0x1F,")],
    "a mouse state with undocumented bits", "the extra bits are dropped", PRE + """
from dustmaker.replay import *
rep = Replay(players=[PlayerData(intents={IntentStream.MOUSE_STATE: [MouseState(0x21), MouseState(4)]})])
w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
p = DFReader(io.BytesIO(w.data.getvalue())).read_replay().players[0]
assert p.get_intent_value(IntentStream.MOUSE_STATE, 0) == 0x21
""")
# C11
# C12
# C13
# C14
bug("c14-g", "C14", [(E, "        self.lastX, self.lastY = mat.sample(self.lastX, self.lastY)", "        self.lastX, self.lastY = mat.sample(\n            self.lastX, self.lastY, with_offset=bool(self.lastX or self.lastY)\n        )")],
    "a key whose last position is the origin", "the position is not translated", PRE + """
from dustmaker.entity import EnemyKey
lv = Level(); k = EnemyKey(); k.lastX = 0.0; k.lastY = 0.0; lv.add_entity(0.0, 0.0, k); lv.translate(48, 96)
assert (k.lastX, k.lastY) == (48.0, 96.0)
""")
bug("c14-h", "C14", [(L, "            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))", "            pos.x, pos.y = int(pos_tx), int(round(pos_ty))")],
    "a translation by a fractional number of pixels", "player starts are off by one pixel", PRE + """
lv = Level(); lv.start_position(1).x = 10; lv.translate(0.75, 0)
assert lv.start_position(1).x == 11
""")
bug("c14-i", "C14", [(E, "            nodes[i] = mat.sample(*pos)", "            nodes[i] = mat.sample(*pos) if i < 16 else pos")],
    "a controller with more than sixteen nodes", "later nodes stay behind", PRE + """
from dustmaker.entity import AIController
lv = Level(); c = AIController(); c.nodes.extend([(float(i), 0.0) for i in range(20)]); lv.add_entity(0.0, 0.0, c); lv.translate(48, 0)
assert list(c.nodes) == [(i + 48.0, 0.0) for i in range(20)]
""")
# C15
bug("c15-c", "C15", [(L, "        self.transform(TxMatrix.ROTATE[times % 4])", "        self.transform(TxMatrix.ROTATE[abs(times) % 4 if times > -4 else times % 4])")],
    "a rotation by -1 to -3", "counterclockwise rotations turn the wrong way", PRE + """
a = Level(); a.add_prop(1, 3.0, 5.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0)); a.rotate(-1)
assert [v[1:3] for v in a.props.values()] == [(5.0, -3.0)]
""")
# C16
bug("c16-j", "C16", [(T, "                if vert_a[0] != vert_b[0] and x in (0, factor * 2):\n                    continue\n", "                if vert_a[0] != vert_b[0] and (x == 0 or x >= 16 or x == factor * 2):\n                    continue\n")],
    "upscaling by nine or more", "caps appear inside the enlarged edge", PRE + """
t = Tile(); t.edge_data[0].caps = (True, True)
n = sum(sum(u.edge_data[0].caps) for _, _, u in t.upscale(10))
assert n == 2, n
""")
# C17
bug("c17-f", "C17", [(L, "                ntile = self.tiles.get((layer, x + ndir[0], y + ndir[1]))\n\n                if ntile is None:\n                    edat.solid", "                ntile = self.tiles.get((layer, x + ndir[0], y + ndir[1]))\n\n                if ntile is None or (layer < 6 and not ntile.tile_flags & 4):\n                    edat.solid")],
    "a background layer with a neighbour without the solid flag", "the flush edge becomes solid", PRE + """
lv = Level(); lv.tiles[(3, 0, 0)] = Tile(); lv.tiles[(3, 1, 0)] = Tile(tile_flags=0)
lv.calculate_edge_visibility()
assert not lv.tiles[(3, 0, 0)].edge_data[3].solid
""")
bug("c17-g", "C17", [(L, "                    edat.visible = visible_callback(x, y, side, tile, ntile)", "                    edat.visible = visible_callback(x & 0xFFFF, y, side, tile, ntile) if x > 0xFFFF else visible_callback(x, y, side, tile, ntile)")],
    "tiles more than 65535 tiles to the right", "the callback gets a wrong coordinate", PRE + """
lv = Level(); lv.tiles[(19, 70000, 0)] = Tile(); lv.tiles[(19, 70001, 0)] = Tile(sprite_palette=1); seen = []
lv.calculate_edge_visibility(visible_callback=lambda *a: seen.append(a[:3]) or True)
assert sorted(s[0] for s in seen) == [70000, 70001], seen
""")
# C18
bug("c18-h", "C18", [(L, "                        if (edge_data.filth_spike, edge_data.filth_sprite_set) == (\n                            nedge_data.filth_spike,\n                            nedge_data.filth_sprite_set,\n                        ):", "                        if edge_data.filth_sprite_set == nedge_data.filth_sprite_set and (\n                            edge_data.filth_spike == nedge_data.filth_spike or not angle\n                        ):")],
    "dust next to spikes of the same kind on a straight surface", "no filth cap is drawn between dust and spikes", PRE + """
lv = Level()
for x in range(2):
    t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; t.edge_data[0].filth_spike = bool(x); lv.tiles[(19, x, 0)] = t
lv.calculate_edge_visibility(); lv.calculate_edge_caps()
assert lv.tiles[(19, 0, 0)].edge_data[0].filth_caps == (True, True)
""")
# C19
bug("c19-c", "C19", [(L, "            mx_id = max(mx_id, self.backdrop.calculate_max_id())", "            mx_id = max(mx_id, self.backdrop.calculate_max_id() if self.backdrop.tiles else 0, *list(self.backdrop.props)[:64])")],
    "a backdrop with many props and no tiles", "the maximum id misses some backdrop props", PRE + """
lv = Level()
for i in range(70): lv.backdrop.add_prop(1, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0), 500 + i)
assert lv.calculate_max_id() == 569
""")
bug("c19-d", "C19", [(R, "        level._next_id = meta[\"entityUid\"]", "        level._next_id = min(meta[\"entityUid\"], 0x7FFFFFF)")],
    "ids above 2^27 in a file", "new ids collide or are handed out again", PRE + """
lv = Level(); i = lv.add_prop(1, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0), 0x8000010); del lv.props[i]
l2 = read_level(write_level(lv))
assert l2.calculate_max_id(reset=False) >= 0x8000010
""")
# C20
# C21
bug("c21-f", "C21", [(L, "        self.entities.update(copy.deepcopy(other_level.entities))", "        self.entities.update(\n            {k: (x, y, copy.deepcopy(e)) for k, (x, y, e) in other_level.entities.items()}\n            if len(other_level.entities) < 32\n            else {k: (x, y, copy.copy(e)) for k, (x, y, e) in other_level.entities.items()}\n        )")],
    "merging a level with at least 32 entities", "entity variables are shared between the levels", PRE + """
a, b = Level(), Level()
for i in range(40): b.add_entity(0.0, 0.0, Apple())
a.merge(b)
k = next(iter(b.entities)); b.entities[k][2].variables["q"] = VariableInt(1)
assert "q" not in a.entities[k][2].variables
""")
bug("c21-g", "C21", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))", "        for key, tile in copy.deepcopy(other_level.tiles).items():\n            if key not in self.tiles or tile.tile_flags & 4:\n                self.tiles[key] = tile")],
    "overlapping tiles where the other level's tile lacks the solid flag", "this level's tile wins", PRE + """
a, b = Level(), Level(); a.tiles[(19, 0, 0)] = Tile(); b.tiles[(19, 0, 0)] = Tile(tile_flags=1)
a.merge(b)
assert a.tiles[(19, 0, 0)] == Tile(tile_flags=1)
""")
# C22
bug("c22-i", "C22", [(CV, "        return VariableString(jvars.encode(\"latin1\"))", "        return VariableString(jvars.rstrip(\"\\0\").encode(\"latin1\"))")],
    "a string ending in zero bytes", "trailing zero bytes are lost", PRE + """
from dustmaker.cmd.variables import *
v = VariableString(b"ab\\0")
assert json_to_variables(*variables_to_json(v)) == v
""")
bug("c22-j", "C22", [(CV, "            schema[subkey] = subschema\n            jvars[subkey] = subjvar\n", "            schema[subkey.lower() if subkey.lower() in schema else subkey] = subschema\n            jvars[subkey.lower() if subkey.lower() in jvars else subkey] = subjvar\n")],
    "a struct with keys that differ only in case", "one of the keys is lost", PRE + """
from dustmaker.cmd.variables import *
v = VariableStruct({"a": VariableInt(1), "A": VariableInt(2)})
assert json_to_variables(*variables_to_json(v)) == v
""")
# C23
bug("c23-j", "C23", [("dustmaker/cmd/thumbnail.py", "            if not args.force and os.path.exists(args.image):", "            if not args.force and os.path.isfile(args.image) and os.path.getsize(args.image):")],
    "extracting over an existing empty image file", "the file is overwritten without --force", CLI + """
import os, subprocess, sys, tempfile
from dustmaker import write_level
from dustmaker.level import Level
with tempfile.TemporaryDirectory() as d:
    lv = Level(); lv.sshot = b"png"
    open(d + "/l", "wb").write(write_level(lv)); open(d + "/i", "wb").close()
    r = subprocess.run([sys.executable, "-m", "dustmaker", "thumbnail", d + "/l", d + "/i"], stdout=subprocess.DEVNULL)
    assert r.returncode != 0 and open(d + "/i", "rb").read() == b""
""")
# C24
bug("c24-g", "C24", [(CX, "            if level.level_type == LevelType.NORMAL:", "            if level.level_type not in (LevelType.NEXUS, LevelType.NEXUS_MP):")],
    "upscaling a koth or survival level", "its level type changes", CLI + """
import subprocess, sys, tempfile
from dustmaker import write_level, read_level
from dustmaker.level import Level
with tempfile.TemporaryDirectory() as d:
    lv = Level(); lv.level_type = 3
    open(d + "/l", "wb").write(write_level(lv))
    subprocess.check_call([sys.executable, "-m", "dustmaker", "transform", d + "/l", d + "/o", "--upscale", "2"])
    assert read_level(open(d + "/o", "rb").read()).level_type == 3
""")
# C26
bug("c26-g", "C26", [(E, "        self.variables = copy.deepcopy(variables) if variables is not None else {}", "        self.variables = copy.copy(variables) if variables is not None else {}")],
    "two entities made from the same variables with an array", "they share the array", PRE + """
from dustmaker.entity import *
v = {"nodes": VariableArray(VariableVec2)}
a, b = AIController(v), AIController(v)
a.nodes.append((1.0, 2.0))
assert len(b.nodes) == 0
""")
# C27
bug("c27-e", "C27", [(V, "        super().__init__((element_type, list(values or [])))", "        super().__init__((element_type, list(values) if values and len(values) < 32 else values or []))")],
    "an array made from a list of 32 elements or more", "the array shares the caller's list", PRE + """
l = [VariableInt(i) for i in range(40)]; a = VariableArray(VariableInt, l); l.pop()
assert len(a) == 40
""")
# C28
bug("c28-f", "C28", [(V, "        return self._vtype == oth._vtype and self.value == oth.value", "        if self._vtype != oth._vtype:\n            return False\n        if isinstance(self.value, float):\n            return abs(self.value - oth.value) < 2**-31\n        return bool(self.value == oth.value)")],
    "two floats that differ by less than 2^-31", "different values compare equal", PRE + """
assert VariableFloat(1.0) != VariableFloat(1.0 + 2**-40)
""")
bug("c28-g", "C28", [(T, "        return self._vals() == oth._vals()", "        return self._vals()[:2] == oth._vals()[:2] and self._vals()[3:] == oth._vals()[3:] and all(\n            a == b or not (a.visible or b.visible or a.solid or b.solid or a.filth_sprite_set or b.filth_sprite_set)\n            for a, b in zip(self.edge_data, oth.edge_data)\n        )")],
    "tiles that differ only in the caps of hidden edges", "different tiles compare equal", PRE + """
t = Tile(); t.edge_data[1].caps = (True, False)
assert t != Tile()
""")
# C29
bug("c29-f", "C29", [(X, "        return math.sqrt(abs(self.determinant))", "        return max(abs(self[0][0]), abs(self[0][1]))")],
    "a matrix that scales the axes differently or shears", "the reported scale is that of one axis", PRE + """
assert TxMatrix(((2, 0, 0), (0, 8, 0), (0, 0, 1))).scale == 4
""")
# C30
bug("c30-i", "C30", [(W, "                enemy_filth += getattr(entity, \"FILTH\", 0)", "                if entity.visible:\n                    enemy_filth += getattr(entity, \"FILTH\", 0)")],
    "an invisible enemy", "hidden enemies are not counted", _m.FV + """
from dustmaker.entity import EnemyBear
lv = Level(); e = EnemyBear(); e.visible = False; lv.add_entity(0.0, 0.0, e)
assert totals(lv)[0][1] == 9
""")
# C31
bug("c31-e", "C31", [(W, "        self.bit_seek(start_index)\n\n        self.write_bytes(header)\n", "        self.bit_seek(start_index if start_index < 1 << 16 else start_index & ~63)\n\n        self.write_bytes(header)\n")],
    "a variable file written at a byte offset over 8192 that is not a multiple of eight", "the header lands in the wrong place", PRE + """
s = io.BytesIO(); s.write(b"x" * 8195)
with DFWriter(s, noclose=True) as w: w.write_var_file(b"DF_CFG", {"a": VariableInt(4)})
r = DFReader(io.BytesIO(s.getvalue())); r.bit_seek(8 * 8195)
assert r.read_var_file(b"DF_CFG") == {"a": VariableInt(4)}
""")
