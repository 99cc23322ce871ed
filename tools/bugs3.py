from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


CLI = PRE + """
import contextlib, os, tempfile, json
from dustmaker.cmd.main import main as _main
def cli(*args):
    old = sys.argv
    sys.argv = ["dustmaker", *map(str, args)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            _main()
    except SystemExit as e:
        if e.code:
            print("exit", e.code)
    finally:
        sys.argv = old
    return out.getvalue()
tmp = tempfile.TemporaryDirectory()
d = tmp.name
def put(n, b):
    open(os.path.join(d, n), "wb").write(b)
    return os.path.join(d, n)
def get(n):
    return open(os.path.join(d, n), "rb").read()
"""

# ---------------------------------------------------------------- C03, C08, C10
bug("c03-e", "C03", [(R, "                    scale_lg = x_scale * 7 + y_scale", "                    scale_lg = x_scale * 7 + y_scale if version > 7 else 32")],
    "a segment of version 7 holding a scaled prop", "props of version 7 segments lose their scale",
    PRE + """
import struct, zlib
bits = []
def put(n, v): bits.extend((v >> i) & 1 for i in range(n))
put(16, 1); put(32, 7); put(8, 12); put(8, 3)
put(1, 0); put(27, 1000); put(4, 2 ^ 4); put(1, 1); put(27, 50); put(4, 5 ^ 4)
put(16, 0); put(2, 0); put(8, 1); put(12, 2); put(12, 3); put(8, 4)
bits += [0] * (-len(bits) % 8)
body = bytes(sum(bits[i + j] << j for j in range(8)) for i in range(0, len(bits), 8))
b = struct.pack("<HBBB", 7, 0, 0, 16) + struct.pack("<IHHHH", 0, 0, 0, 0, 0) + struct.pack("<I", 8) + body
raw = struct.pack("<I", len(b) + 4) + b
comp = zlib.compress(raw)
reg = struct.pack("<IIhhHHB", 17 + len(comp), len(raw), 0, 0, 14, 1, 0) + comp
lv = Level()
with DFReader(io.BytesIO(reg)) as r: r.read_region(lv)
assert abs(lv.props[7][3].scale - 50 ** (-13 / 24)) < 1e-9, lv.props[7][3].scale
""")
bug("c08-e", "C08", [(B, "        if val < 0:\n            val += 1 << bits\n", "        if val < 0:\n            val += 1 << min(bits, 64)\n")],
    "a negative value written with more than 64 bits", "two's complement of wide negative writes is wrong",
    PRE + """
from dustmaker.bitio import BitIOWriter
s = io.BytesIO()
w = BitIOWriter(s)
w.write(72, -2)
w.flush()
assert s.getvalue() == b"\\xfe" + b"\\xff" * 8, s.getvalue()
""")
# ---------------------------------------------------------------- C13
bug("c13-d", "C13", [(T, "        flipped = mat.flipped\n        if flipped:\n            # horizontally flip", "        flipped = mat[0][0] * mat[1][1] < 0 or mat[0][1] == mat[1][0] != 0\n        if flipped and mat.scale <= 1:\n            # horizontally flip")],
    "a flip combined with an enlargement (as Level.upscale with a flip passes it)", "flipped and scaled tiles are rotated but not mirrored",
    PRE + """
t = Tile(TileShape.SMALL_1)
t.transform(TxMatrix.HFLIP * 3)
assert t.shape == TileShape.SMALL_5, t.shape
""")
# ---------------------------------------------------------------- C16
# ---------------------------------------------------------------- C18
bug("c18-f", "C18", [(L, "                            or tile.get_sprite_tuple() != ntile.get_sprite_tuple()\n", "                            or tile.get_sprite_tuple()[:2] != ntile.get_sprite_tuple()[:2]\n")],
    "neighbouring tiles that differ in their palette only", "edges join across tiles of different sprites",
    PRE + """
lv = Level()
lv.tiles[(19, 0, 0)] = Tile(); lv.tiles[(19, 1, 0)] = Tile(sprite_palette=1)
lv.calculate_edge_visibility(); lv.calculate_edge_caps()
assert lv.tiles[(19, 0, 0)].edge_data[0].caps == (True, True)
""")
# ---------------------------------------------------------------- C22
bug("c22-a", "C22", [(CV, "        return VariableString(jvars.encode(\"latin1\"))", "        return VariableString(jvars.strip(\"\\0\").encode(\"latin1\"))")],
    "a string beginning or ending with a zero byte", "zero bytes at the ends of strings disappear",
    PRE + """
from dustmaker.cmd.variables import *
v = VariableString(b"a\\0")
assert json_to_variables(*variables_to_json(v)) == v
""")
# ---------------------------------------------------------------- C23
bug("c23-a", "C23", [(CT, "        level.variables[\"icon_taken\"] = VariableBool(True)", "        if level.sshot:\n            level.variables[\"icon_taken\"] = VariableBool(True)\n        else:\n            level.variables.clear()")],
    "updating the thumbnail from an empty image file", "all variables of the level are dropped",
    CLI + """
lv = Level(); lv.name = b"nm"
p = put("l", write_level(lv)); i = put("i", b"")
cli("thumbnail", p, i, "--update")
assert read_level(get("l")).name == b"nm"
""")
bug("c23-d", "C23", [(CT, "            if not args.force and os.path.exists(args.image):", "            if not args.force and os.path.isfile(args.image) and os.path.getsize(args.image):")],
    "extracting onto an existing empty file without --force", "an existing file is overwritten without being asked",
    CLI + """
lv = Level(); lv.sshot = b"PNG"
p = put("l", write_level(lv)); i = put("i", b"")
cli("thumbnail", p, i)
assert get("i") == b""
""")
bug("c23-e", "C23", [(CV, "KNOWN_VAR_FILE_HEADERS = {b\"DF_STA\", b\"DF_CFG\", b\"DF_FOG\"}", "KNOWN_VAR_FILE_HEADERS = {b\"DF_STA\", b\"DF_CFG\"}")], 
    "printing or updating a fog file", "fog files can no longer be printed or updated",
    CLI + """
w = DFWriter(io.BytesIO()); w.write_var_file(b"DF_FOG", {"a": VariableInt(4)}); w.flush()
p = put("f", w.data.getvalue())
assert json.loads(cli("variables", p))["vars"] == {"a": 4}
""")
bug("c23-f", "C23", [(CV, "                level = reader.read_level(metadata_only=True)\n                variables = level.variables", "                level = reader.read_level(metadata_only=True)\n                variables = {k: v for k, v in level.variables.items() if k != \"icon_taken\" or not v.value}")],
    "printing a level whose thumbnail was taken and applying the result", "printing and applying unedited variables loses one",
    CLI + """
lv = Level(); lv.variables["icon_taken"] = VariableBool(True)
p = put("l", write_level(lv))
put("j", cli("variables", p).encode())
cli("variables", p, os.path.join(d, "j"))
assert "icon_taken" in read_level(get("l")).variables
""")
# ---------------------------------------------------------------- C24
bug("c24-a", "C24", [(CX, "        if args.vflip:\n            mat = TxMatrix.VFLIP * mat", "        if args.vflip:\n            mat = mat * TxMatrix.VFLIP")],
    "a quarter turn combined with a vertical flip", "the flip happens before the rotation",
    CLI + """
lv = Level(); lv.tiles[(19, 1, 2)] = Tile()
p = put("a", write_level(lv))
cli("transform", p, os.path.join(d, "b"), "--rotate", "1", "--vflip")
want = Level(); want.tiles[(19, 1, 2)] = Tile(); want.rotate(1); want.flip_vertical()
assert set(read_level(get("b")).tiles) == set(want.tiles)
""")
bug("c24-b", "C24", [(CX, "            if level.level_type == LevelType.NORMAL:\n", "            if level.level_type in (LevelType.NORMAL, LevelType.NEXUS):\n")],
    "upscaling a nexus level", "the level type of nexus levels changes",
    CLI + """
lv = Level(); lv.level_type = LevelType.NEXUS
p = put("a", write_level(lv))
cli("transform", p, os.path.join(d, "b"), "--upscale", "2")
assert read_level(get("b")).level_type == LevelType.NEXUS
""")
bug("c24-c", "C24", [(CX, "        mat = TxMatrix.ROTATE[args.rotate % 4]", "        mat = TxMatrix.ROTATE[max(args.rotate, -1) % 4]")],
    "two or more counterclockwise rotations", "several counterclockwise turns act as one",
    CLI + """
lv = Level(); lv.tiles[(19, 1, 2)] = Tile()
p = put("a", write_level(lv))
cli("transform", p, os.path.join(d, "b"), "--rotate", "-2")
assert set(read_level(get("b")).tiles) == {(19, -2, -3)}
""")
bug("c24-d", "C24", [(CX, "            \"--translate-y\",\n            type=float,", "            \"--translate-y\",\n            type=lambda v: float(int(float(v))),")],
    "a fractional vertical shift", "entities are shifted by a truncated amount",
    CLI + """
lv = Level(); lv.add_entity(0.0, 0.0, Entity())
p = put("a", write_level(lv))
cli("transform", p, os.path.join(d, "b"), "--translate-y", "10.5")
assert [e[:2] for e in read_level(get("b")).entities.values()] == [(0.0, 10.5)]
""")
# ---------------------------------------------------------------- C25
SV = CLI + """
def save(scores, **kw):
    def s(n, **o):
        v = dict(combo=1, time=2.5, thorough=1.0, best_time=2.0, overall=3); v.update(o)
        return VariableStruct({"file_name": VariableString(n), "combo": VariableInt(v["combo"]), "time": VariableFloat(v["time"]), "thorough": VariableFloat(v["thorough"]),
                               "best_time": VariableFloat(v["best_time"]), "overall": VariableInt(v["overall"])})
    vs = dict(kw)
    vs["score"] = VariableArray(VariableStruct, [s(n, **o) for n, o in scores])
    w = DFWriter(io.BytesIO()); w.write_var_file(b"DF_STA", vs); w.flush()
    put("s0", w.data.getvalue())
    cli("saveconvert", os.path.join(d, "s0"), os.path.join(d, "s1"))
    return DFReader(io.BytesIO(get("s1"))).read_var_file(b"DF_STA")
"""
bug("c25-a", "C25", [(CS, "    \"userbook\",\n", "    \"usersbook\",\n")],
    "a save with a user book", "the user book entry is dropped",
    SV + """
o = save([], userbook=VariableInt(4))
assert o["userbook"] == VariableInt(4)
""")
bug("c25-b", "C25", [(CS, "            b\"vat\",\n            b\"venom\",", "            b\"venom\",\n            b\"vatt\",")],
    "a score for one particular laboratory level", "the score of one level is dropped",
    SV + """
o = save([(b"vat", {})])
assert len(o["k_score"]) == 1
""")
bug("c25-c", "C25", [(CS, "    new_scores.sort(key=lambda score: score.value[\"file_name\"].value)", "    new_scores.sort(key=lambda score: score.value[\"file_name\"].value.decode()[:7])")],
    "two levels sharing their first seven letters recorded in the wrong order (momentum and momentum2)", "scores are not sorted by file name",
    SV + """
o = save([(b"momentum2", {}), (b"momentum", {})])
assert [s["file_name"].value for s in o["k_score"]] == [b"momentum", b"momentum2"]
""")
bug("c25-d", "C25", [(CS, "                    \"overall\": VariableInt(score[\"overall\"].value),", "                    \"overall\": VariableInt(max(score[\"overall\"].value, score[\"combo\"].value)),")],
    "a score whose combo exceeds its overall value", "the overall value is replaced",
    SV + """
o = save([(b"den", dict(combo=9, overall=2))])
assert o["k_score"][0]["overall"].value == 2
""")
# ---------------------------------------------------------------- C26
bug("c26-a", "C26", [(E, "            if objtype:\n                self.variables[prop_name] = result\n            return result", "            if objtype and len(self.variables) != 1:\n                self.variables[prop_name] = result\n            return result")],
    "an array accessor first used on an entity holding exactly one other variable", "elements appended through the accessor never reach the variables",
    PRE + """
e = CheckPoint({"x": VariableInt(1)})
e.trigger_areas.append((1.0, 2.0))
assert "trigger_area" in e.variables and list(e.trigger_areas) == [(1.0, 2.0)]
""")
bug("c26-c", "C26", [(E, "        while len(self.gradient) > 3:\n            self.gradient.pop()", "        while len(self.gradient) > 3:\n            self.gradient.pop(0)")],
    "normalizing a fog trigger with more than three gradient colours", "the wrong gradient colours are kept",
    PRE + """
f = FogTrigger(); f.gradient.extend([1, 2, 3, 4]); f.normalize()
assert list(f.gradient) == [1, 2, 3]
""")
bug("c26-d", "C26", [(E, "        self.variables = copy.deepcopy(variables) if variables is not None else {}", "        self.variables = dict(variables) if variables is not None else {}")],
    "two entities made from the same variables, one edited in place through an array accessor", "editing one entity changes another",
    PRE + """
vs = {"trigger_area": VariableArray(VariableVec2)}
a, b = CheckPoint(vs), CheckPoint(vs)
a.trigger_areas.append((1.0, 2.0))
assert len(b.trigger_areas) == 0
""")
# ---------------------------------------------------------------- C27
bug("c27-a", "C27", [(V, "        self.value[1].insert(index, self._box(value))", "        self.value[1].insert(index if index >= 0 or -index < len(self) else len(self) + index, self._box(value))")],
    "inserting at an index below minus the length minus one", "the element lands at the wrong place",
    PRE + """
a = VariableArray(VariableInt, [VariableInt(1), VariableInt(2), VariableInt(3)])
a.insert(-5, 9)
assert list(a) == [9, 1, 2, 3], list(a)
""")
bug("c27-b", "C27", [(V, "        super().__init__((element_type, list(values or [])))", "        super().__init__((element_type, values or []))")],
    "an array made from a list that is modified later", "the array changes with the caller's list",
    PRE + """
l = [VariableInt(1)]
a = VariableArray(VariableInt, l)
l.append(VariableInt(2))
assert len(a) == 1
""")
bug("c27-c", "C27", [(V, "    def __setitem__(self, key, val):\n        self.value[1][key] = self._box(val)", "    def __setitem__(self, key, val):\n        if isinstance(val, self.element_type):\n            val = val.value\n        self.value[1][key].value = val")],
    "assigning a value of another type to an array element", "values of the wrong type are stored",
    PRE + """
a = VariableArray(VariableInt, [VariableInt(1)])
try:
    a[0] = b"x"
except Exception:
    pass
assert list(a) == [1], list(a)
""")
# ---------------------------------------------------------------- C28
bug("c28-a", "C28", [(T, "            self.shape,\n            self.tile_flags,\n            self.edge_data,\n            self.sprite_set,", "            self.shape,\n            self.tile_flags & 4,\n            self.edge_data,\n            self.sprite_set,")],
    "two tiles differing only in the lower flag bits", "tiles with different flags compare equal",
    PRE + """
assert Tile(tile_flags=4) != Tile(tile_flags=5)
""")
bug("c28-c", "C28", [(V, "        return self._vtype == oth._vtype and self.value == oth.value", "        return self.value == oth.value")],
    "comparing an int variable with an unsigned int or float of the same value", "variables of different types compare equal",
    PRE + """
assert VariableInt(1) != VariableUInt(1)
""")
# ---------------------------------------------------------------- C29
bug("c29-b", "C29", [(X, "        return math.sqrt(abs(self.determinant))", "        return math.sqrt(abs(self[0][0] * self[1][1])) or math.sqrt(abs(self.determinant))")],
    "the scale of a matrix that is not a multiple of a quarter turn (shear or free rotation)", "the reported scale disagrees with the determinant",
    PRE + """
m = TxMatrix(((3, 1, 0), (1, 3, 0), (0, 0, 1)))
assert abs(m.scale ** 2 - 8) < 1e-9
""")
bug("c29-c", "C29", [(X, "                    (self[1][0] * rhs, self[1][1] * rhs, self[1][2] * rhs),", "                    (self[1][0] * rhs, self[1][1] * rhs, self[1][2] * abs(rhs)),")],
    "multiplying a translated matrix by a negative number", "scaling by a negative number keeps the vertical translation",
    PRE + """
m = TxMatrix.IDENTITY.translate(1, 2) * -3
assert m.sample(1, 1) == (-6, -9)
""")
# ---------------------------------------------------------------- C30
# ---------------------------------------------------------------- C31
bug("c31-b", "C31", [(B, "            self._tell = data.tell() << 3", "            self._tell = (data.tell() & 0xFFFF) << 3")],
    "an object written at an offset beyond 64 KiB of its stream", "positions are wrong and headers land at the start of the stream",
    PRE + """
s = io.BytesIO(); s.write(b"x" * 70000)
w = DFWriter(s, noclose=True); lv = Level(); lv.name = b"q"; w.write_level(lv); w.flush()
s.seek(70000)
assert s.getvalue()[:70000] == b"x" * 70000
assert DFReader(s).read_level().name == b"q"
""")
bug("c31-c", "C31", [(B, "    def release(self) -> None:\n        \"\"\"Prevents :meth:`close` from closing :attr:`data` as well.\"\"\"\n        self._noclose = True", "    def release(self) -> None:\n        \"\"\"Prevents :meth:`close` from closing :attr:`data` as well.\"\"\"\n        self._noclose = self._bits_left == 0")],
    "releasing a reader or writer in the middle of a byte", "a released stream is closed",
    PRE + """
s = io.BytesIO()
w = DFWriter(s); w.write(3, 5); w.release(); w.close()
assert not s.closed
""")
FV = PRE + """
import struct, zlib
def totals(lv):
    b = write_level(lv)
    r = DFReader(io.BytesIO(b)); _, offs = r.read_level_ex(); data = r.read_bytes(offs[-1])
    out = []
    for a, z in zip(offs, offs[1:]):
        raw = zlib.decompress(data[a + 17:z])
        p = 0
        while p < len(raw):
            n, = struct.unpack_from("<I", raw, p)
            out.append(struct.unpack_from("<HHHH", raw, p + 13))
            p += n
    return out
"""
bug("c30-d", "C30", [(W, "                            dustblock_filth += 1\n", "                            dustblock_filth += 0 if tile.has_filth() else 1\n")],
    "a dustblock with filth on one of its edges", "filthy dustblocks are not counted",
    FV + """
t = Tile(sprite_set=TileSpriteSet.FOREST); t.set_dustblock(); t.edge_data[0].filth_sprite_set = TileSpriteSet.FOREST
lv = Level(); lv.tiles[(19, 0, 0)] = t
assert totals(lv)[0][3] == 1
""")
bug("c30-e", "C30", [(W, "                enemy_filth += getattr(entity, \"FILTH\", 0)", "                enemy_filth += getattr(entity, \"FILTH\", 0) if entity.visible else 0")],
    "an invisible enemy", "hidden enemies are not counted",
    FV + """
lv = Level(); lv.add_entity(5.0, 5.0, EnemyBear(visible=False))
assert totals(lv)[0][1] == 9
""")
# ---------------------------------------------------------------- more C01/C02/C05/C11/C12/C17/C20
bug("c17-e", "C17", [(L, "                    edat.visible = visible_callback(x, y, side, tile, ntile)", "                    edat.visible = visible_callback(\n                        x, y, side, tile, ntile\n                    ) and not visible_callback(\n                        x + ndir[0], y + ndir[1], TileSide(side ^ 1), ntile, tile\n                    )")],
    "a callback that answers yes for both sides of a pair", "an edge the callback asked to show is hidden",
    PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(); lv.tiles[(19, 1, 0)] = Tile(sprite_palette=1)
lv.calculate_edge_visibility(visible_callback=lambda *a: True)
assert lv.tiles[(19, 0, 0)].edge_data[TileSide.RIGHT].visible
""")
