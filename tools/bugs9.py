from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
CM, CC = "dustmaker/cmd/main.py", "dustmaker/cmd/common.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


PROC = PRE + """
import subprocess, tempfile, os
tmp = tempfile.TemporaryDirectory(); d = tmp.name
def run(*a):
    p = subprocess.run([sys.executable, "-m", *a], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout, p.stderr
def put(n, b):
    open(os.path.join(d, n), "wb").write(b); return os.path.join(d, n)
lv = Level(); lv.name = b"x"; lv.sshot = b"\\x89PNG"
f = put("l", write_level(lv))
"""

bug("c34-9a", "C34", [(CM, "    sys.exit(util.main(args))\n", "    util.main(args)\n    return 0\n")],
    "a failing command through the shared entry point", "the exit status says success", PROC + """
g = put("g", b"DF_XXXjunkjunk")
assert run("dustmaker.cmd.main", "variables", g)[0] == 1
""")
bug("c34-9b", "C34", [(CC, "    return util.main(parser.parse_args())\n", "    return util.main(parser.parse_args()) and 0\n")],
    "a failing command through its own module", "the exit status says success", PROC + """
assert run("dustmaker.cmd.thumbnail", f, put("img", b"there"))[0] == 1
""")
bug("c34-9c", "C34", [(CC, "    return util.main(parser.parse_args())\n", "    return util.main(parser.parse_known_args()[0])\n")],
    "a misspelt option given to a command's own module", "it is ignored and the file is rewritten", PROC + """
assert run("dustmaker.cmd.transform", f, os.path.join(d, "o"), "--rotat-e", "1")[0] == 2
assert not os.path.exists(os.path.join(d, "o"))
""")
bug("c34-9d", "C34", [(CM, "        util_key = utility.__name__.lower()\n", "        util_key = utility.__name__[:9].lower()\n")],
    "the save converter through the shared entry point", "its documented name is gone", PROC + """
w = DFWriter(io.BytesIO()); w.write_var_file(b"DF_STA", {}); s = put("s", w.data.getvalue())
assert run("dustmaker.cmd.main", "saveconvert", s, os.path.join(d, "t"))[0] == 0
""")
bug("c34-9e", "C34", [(CV, "            indent=args.indent if args.indent else None,\n", "            indent=args.indent if args.indent else None,\n            ensure_ascii=\"main.py\" not in sys.argv[0],\n"),
                      (CV, "        schema, jvars = variables_to_json(VariableStruct(variables))\n", "        var = VariableStruct(variables)\n        schema, jvars = variables_to_json(var)\n")],
    "text outside ASCII shown through the shared entry point", "the output differs from the one of the own module", PROC + """
lv.name = b"\\xe9\\xff"; f = put("l", write_level(lv))
assert run("dustmaker.cmd.main", "variables", f) == run("dustmaker.cmd.variables", f)
""")
bug("c24-9a", "C24", [(CX, "        mat = TxMatrix.ROTATE[args.rotate % 4]\n", "        mat = TxMatrix.ROTATE[int(args.rotate / 4 % 1 * 4.001) & 3]\n")],
    "a rotation by a huge number of quarter turns", "the wrong rotation is made", CLI + """
from dustmaker.transform import TxMatrix
lv = Level(); lv.tiles[(19, 3, 5)] = Tile(); f = put("l", write_level(lv))
n = (1 << 60) + 3
cli("transform", f, os.path.join(d, "o"), "--rotate", str(n))
lv.rotate(3)
assert set(read_level(get("o")).tiles) == set(lv.tiles)
""")

# hidden state, order, exceptions
bug("c04-9a", "C04", [(W, "    for id_num, (x, y, entity) in level.entities.items():\n", "    for id_num, (x, y, entity) in sorted(\n        level.entities.items(), key=lambda ent: hash(ent[1][2].etype)\n    ):\n")],
    "several entity types in one segment, written by two processes", "the order of entities depends on the hash seed", PRE + """
import subprocess, os
code = '''
import sys
from dustmaker.level import Level
from dustmaker.entity import Entity
from dustmaker.dfwriter import write_level
lv = Level()
for n in ("enemy_a", "enemy_b", "enemy_c", "z_d", "foo"):
    e = Entity(); e.etype = n; lv.add_entity(1.0, 1.0, e)
sys.stdout.buffer.write(write_level(lv))
'''
outs = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(i)}, stdout=subprocess.PIPE).stdout for i in range(1, 7)}
assert len(outs) == 1
""")
bug("c04-9b", "C04", [(W, "        self.write_variable(VariableStruct(level.variables))\n",
                          "        variables, level.variables = level.variables, {}\n        self.write_variable(VariableStruct(variables))\n        level.variables = variables\n")],
    "a variable that cannot be written", "the level loses its variables when the write is refused", PRE + """
lv = Level(); lv.backdrop.tiles[(6, 0, 0)] = Tile(); lv.variables["x"] = VariableString(b"x"); lv.variables["bad key"] = VariableBool(True)
try: write_level(lv)
except ValueError: pass
assert len(lv.variables) == 3
""")
bug("c31-9c", "C31", [(B, "        self.data.write(bytes(byte_gen))\n", "        _SCRATCH[:] = byte_gen\n        self.data.write(_SCRATCH)\n"),
                      (B, "class BitIO:\n", "_SCRATCH = bytearray()\n\n\nclass BitIO:\n")],
    "a stream whose write runs another writer before it copies the data", "the data is lost", PRE + """
class K(io.BytesIO):
    def write(self, b):
        o = DFWriter(io.BytesIO())
        o.write(24, 0x777777)
        return super().write(b)
k = K(); w = DFWriter(k, noclose=True)
for i in range(4): w.write(8, i)
assert k.getvalue() == bytes(range(4)), k.getvalue()
""")
bug("c31-9a", "C31", [(R, "        sub_reader = DFReader(\n            io.BytesIO(zlib.decompress(self.read_bytes(region_len - 17)))\n        )\n",
                          "        _REGION_IO.seek(0)\n        _REGION_IO.truncate()\n        _REGION_IO.write(zlib.decompress(self.read_bytes(region_len - 17)))\n        _REGION_IO.seek(0)\n        sub_reader = DFReader(_REGION_IO)\n"),
                      (R, "class DFReader(BitIOReader):\n", "_REGION_IO = io.BytesIO()\n\n\nclass DFReader(BitIOReader):\n")],
    "two readers in different threads", "they share one buffer for region data", PRE + """
import threading
lvs = []
for s in range(2):
    lv = Level()
    for i in range(200): lv.tiles[(19, i % 16 + 256 * (i // 16), s)] = Tile(sprite_tile=s + 3)
    lvs.append((lv, write_level(lv)))
sys.setswitchinterval(1e-6)
bad = []
def go(i):
    for _ in range(60):
        try:
            if read_level(lvs[i][1]).tiles != lvs[i][0].tiles: bad.append(1)
        except Exception as e: bad.append(e)
ts = [threading.Thread(target=go, args=(i % 2,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:1]
""")
bug("c33-9b", "C33", [(T, "        self.edge_data = [TileEdgeData() for _ in TileSide]\n        self.sprite_set = sprite_set\n", "        self.edge_data = [\n            TileEdgeData() if _tile_data is not None or _ < 3 else _SPARE for _ in TileSide\n        ]\n        self.sprite_set = sprite_set\n"),
                      (T, "class TileShape(IntEnum):\n", "_SPARE = TileEdgeData()\n\n\nclass TileShape(IntEnum):\n")],
    "two tiles built in code, one of them edited on the right side", "they share that edge", PRE + """
a, b = Tile(), Tile()
a.edge_data[3].solid = True
assert not b.edge_data[3].solid
""")

# C35: stale or derived state
bug("c35-9a", "C35", [(T, "        self.sprite_set = TileSpriteSet(tile_data[10] & 0xF)\n        self.sprite_tile = tile_data[11]\n        self.sprite_palette = tile_data[10] >> 4\n",
                          "        self.sprite_set = TileSpriteSet(tile_data[10] & 0xF)\n        self.sprite_tile = tile_data[11]\n        self.sprite_palette = tile_data[10] >> 4\n        self._raw_sprite = tile_data[10:12]\n"),
                      (T, "        tile_data[10] = self.sprite_set + (self.sprite_palette << 4)\n        tile_data[11] = self.sprite_tile\n",
                          "        tile_data[10] = self.sprite_set + (self.sprite_palette << 4)\n        tile_data[11] = self.sprite_tile\n        raw = getattr(self, \"_raw_sprite\", None)\n        if raw is not None and raw[0] == tile_data[10] and self.is_dustblock():\n            tile_data[11] = raw[1]\n        return bytes(tile_data)\n"),
                      (T, "\n        return bytes(tile_data)\n\n    def _unpack_tile_data", "\n    def _unpack_tile_data")],
    "a tile read from a file turned into a dustblock of the same palette", "the old sprite is written", PRE + """
from dustmaker.tile import TileSpriteSet
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(sprite_set=TileSpriteSet.CITY, sprite_palette=1, sprite_tile=3)
l2 = read_level(write_level(lv)); l2.tiles[(19, 0, 0)].set_dustblock()
assert read_level(write_level(l2)).tiles == l2.tiles
""")
bug("c19-9a", "C19", [(L, "            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n", "            mx_id = max(mx_id, self.backdrop.calculate_max_id(reset=reset) - (not reset))\n")],
    "a backdrop prop with the largest id of the level", "after writing, its id is assigned again", PRE + """
lv = Level(); lv.backdrop.props[200] = (1, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0)); write_level(lv)
assert lv.add_prop(1, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0)) > 200
""")
bug("c16-9b", "C16", [(T, "                if vert_a[1] != vert_b[1] and y in (0, factor * 2):\n", "                if vert_a[1] != vert_b[1] and y in (0, (factor & 0x1F) * 2):\n")],
    "an upscale by 32 or more", "caps inside the enlarged tile's lower end are dropped", PRE + """
t = Tile(); t.edge_data[2].caps = (True, True)
out = {(x, y): n for x, y, n in t.upscale(33)}
assert out[(0, 32)].edge_data[2].caps[0] or out[(0, 32)].edge_data[2].caps[1]
""")
bug("c06-9a", "C06", [(R, "                    if len(value_part.value) < max_width:\n                        break\n\n                    self.read(4)\n                    self.read_6bit_str()\n",
                          "                    if len(value_part.value) < max_width or len(var_value_ctns) > 9:\n                        break\n\n                    self.read(4)\n                    self.read_6bit_str()\n")],
    "a string variable of at least 10 x 65535 bytes", "its tail replaces its head", PRE + """
lv = Level(); lv.variables["s"] = VariableString(bytes(65535 * 10 + 5))
assert read_level(write_level(lv)).variables["s"].value == bytes(65535 * 10 + 5)
""")
BUGS = [b for b in BUGS if b]
