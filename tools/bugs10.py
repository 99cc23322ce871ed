from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
CM, CC = "dustmaker/cmd/main.py", "dustmaker/cmd/common.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c36-10a", "C36", [(RP, "    LEFT_CLICK = 4\n    RIGHT_CLICK = 8\n", "    LEFT_CLICK = 8\n    RIGHT_CLICK = 4\n")],
    "a replay with mouse buttons", "left and right are exchanged", PRE + """
from dustmaker.replay import *
assert int(MouseState.LEFT_CLICK | MouseState.WHEEL_UP) == 5
""")
bug("c36-10b", "C36", [(L, "    DUSTMOD = 6\n", "    DUSTMOD = 5\n")],
    "a dustmod level", "the level is written with the wrong type", PRE + """
lv = Level(); lv.level_type = 6
from dustmaker.level import LevelType
assert LevelType(read_level(write_level(lv)).level_type).name == "DUSTMOD"
""")
bug("c36-10c", "C36", [(E, "    CONNECT = 3\n    INTEREST = 4\n", "    INTEREST = 3\n    CONNECT = 4\n")],
    "a camera node of type interest", "the file says connect", PRE + """
from dustmaker.entity import *
c = CameraNode(); c.node_type = CameraNodeType.INTEREST
assert c.variables["node_type"].value == 4
""")
bug("c36-10d", "C36", [(T, "    6,  # CITY\n    9,  # LABORATORY\n", "    9,  # CITY\n    6,  # LABORATORY\n")],
    "dustblocks of the city or the laboratory", "another tile is written", PRE + """
from dustmaker.tile import *
t = Tile(sprite_set=TileSpriteSet.CITY); t.set_dustblock()
assert t.sprite_tile == 6
""")
bug("c36-10e", "C36", [(RP, "        to_repr=MouseState,\n", "        to_repr=lambda x: MouseState(x & 0xF),\n")],
    "the middle button held", "it is lost on reading", PRE + """
import io
from dustmaker.replay import *
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
p = PlayerData(Character.DUSTKID, {IntentStream.MOUSE_STATE: [MouseState.MIDDLE_CLICK | MouseState.LEFT_CLICK]})
w = DFWriter(io.BytesIO()); w.write_replay(Replay(level=b"x", frames=3, players=[p])); w.flush()
q = DFReader(io.BytesIO(w.data.getvalue())).read_replay().players[0]
assert q.get_intent_value(IntentStream.MOUSE_STATE, 0) == 20
""")
RPRE = PRE + """
import io
from dustmaker.replay import *
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
def rt(rep):
    w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
    return DFReader(io.BytesIO(w.data.getvalue())).read_replay()
"""
bug("c10-10a", "C10", [(W, "                sub_writer.write(32, len(entity_data.frames))\n", "                sub_writer.write(32, len(entity_data.frames) & 0x3FF)\n")],
    "an entity with 1024 frames or more", "its later frames and the entities after it are lost or misread", RPRE + """
rep = Replay(level=b"x", frames=3, players=[PlayerData()])
rep.entities[2] = EntityData([EntityFrame(i, 1.0, 2.0, 3.0, 4.0) for i in range(1030)])
assert len(rt(rep).entities[2].frames) == 1030
""")
bug("c10-10b", "C10", [(W, "            sub_writer.write(32, len(rep.entities))\n", "            sub_writer.write(32, len(rep.entities) & 0xFF)\n")],
    "a replay with 256 entities or more", "entities are lost", RPRE + """
rep = Replay(level=b"x", frames=3, players=[PlayerData()])
for i in range(300): rep.entities[i] = EntityData([EntityFrame(i, 1.0, 2.0, 3.0, 4.0)])
assert len(rt(rep).entities) == 300
""")
bug("c10-10c", "C10", [(W, "                    sub_writer.write(32, int(round(frame.x_speed * 100.0)))\n", "                    sub_writer.write(32, int(round(frame.x_speed * 10.0)) * 10)\n")],
    "a fractional x speed", "it loses a digit", RPRE + """
rep = Replay(level=b"x", frames=3, players=[PlayerData()])
rep.entities[2] = EntityData([EntityFrame(1, 1.0, 2.0, 3.25, 4.0)])
assert rt(rep).entities[2].frames[0].x_speed == 3.25
""")
bug("c10-10d", "C10", [(R, "                        intent_values.extend(state for _ in range(count))\n", "                        if len(intent_values) <= rep.frames:\n                            intent_values.extend(state for _ in range(count))\n")],
    "an input stream longer than the frame count", "inputs after the last frame vanish", RPRE + """
rep = Replay(level=b"x", frames=3, players=[PlayerData(Character.DUSTMAN, {IntentStream.JUMP: [1, 2, 1, 2, 1, 2, 1]})])
p = rt(rep).players[0]
assert [p.get_intent_value(IntentStream.JUMP, i) for i in range(7)] == [1, 2, 1, 2, 1, 2, 1]
""")
bug("c02-10a", "C02", [(W, "            self.write(16, len(segment.props))\n", "            self.write(16, len(segment.props) & 0x1FF)\n")],
    "a segment with 512 props or more", "props are lost", PRE + """
from dustmaker.prop import Prop
lv = Level()
for i in range(520): lv.add_prop(19, i % 700, 3, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1))
assert len(read_level(write_level(lv)).props) == 520
""")
bug("c02-10b", "C02", [(W, "            self.write(16, len(segment.entities))\n", "            self.write(16, len(segment.entities) & 0x1FF)\n")],
    "a segment with 512 entities or more", "entities are lost", PRE + """
from dustmaker.entity import *
lv = Level()
for i in range(520): lv.add_entity(i % 700, 3, Emitter())
assert len(read_level(write_level(lv)).entities) == 520
""")
bug("c02-10c", "C02", [(W, "        self.write(32, num_regions)\n", "        self.write(32, num_regions & 0xFF)\n")],
    "a level with 256 regions or more", "the region count wraps", PRE + """
lv = Level()
for i in range(300): lv.tiles[(19, i * 256, 0)] = Tile()
assert len(read_level(write_level(lv)).tiles) == 300
""")
bug("c30-10a", "C30", [(W, "        self.write(16, tile_surface)\n        self.write(16, dustblock_filth)\n", "        self.write(16, tile_surface)\n        self.write(16, min(dustblock_filth, 127))\n")],
    "a segment with more than 127 dustblocks", "the total is capped", PRE + """
import sys, zlib
lv = Level()
for x in range(16):
    for y in range(9):
        t = Tile(); t.set_dustblock(); lv.tiles[(19, x, y)] = t
d = write_level(lv)
i = d.index(b"\\x78\\x9c", 60)
u = zlib.decompress(d[i:])
assert int.from_bytes(u[19:21], "little") == 144, u[:25]
""")
bug("c30-10b", "C30", [(W, "        self.write(16, enemy_filth)\n", "        self.write(16, enemy_filth & 0xFF)\n")],
    "a segment with more than 255 enemy filth", "the total wraps", PRE + """
import zlib
from dustmaker.entity import *
lv = Level()
for i in range(40): lv.add_entity(i, 3, EnemyBear())
d = write_level(lv)
i = d.index(b"\\x78\\x9c", 60)
u = zlib.decompress(d[i:])
assert int.from_bytes(u[15:17], "little") == 360, u[:25]
""")
bug("c06-10a", "C06", [(R, "                val.extend(self.read_variable(atype) for _ in range(alen))\n", "                val.extend(self.read_variable(atype) for _ in range(alen & 0x7FFF))\n")],
    "an array of 32768 elements or more", "its contents are misread", PRE + """
import io
from dustmaker.variable import *
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
w = DFWriter(io.BytesIO()); w.write_variable(VariableArray(VariableBool, [VariableBool(True)] * 40000)); w.flush()
assert len(DFReader(io.BytesIO(w.data.getvalue())).read_variable(VariableType.ARRAY).value[1]) == 40000
""")
bug("c35-10a", "C35", [(W, '''        rmap = _compute_region_map(level)
''', '''        stamp = (len(level.tiles), len(level.props), len(level.entities), level.backdrop and len(level.backdrop.tiles))
        if getattr(level, "_rmap_stamp", None) == stamp and level.props:
            rmap = level._rmap
        else:
            rmap = _compute_region_map(level)
            level._rmap, level._rmap_stamp = rmap, stamp
''')],
    "a level with props is written, one of its objects is moved without changing any count, and it is written again", "the old contents are written", PRE + """
from dustmaker.prop import Prop
lv = Level(); i = lv.add_prop(19, 5.0, 5.0, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1)); write_level(lv)
lv.props[i] = (19, 900.0, 5.0, lv.props[i][3])
assert read_level(write_level(lv)).props[i][1] == 900.0
""")
bug("c35-10b", "C35", [(T, '''    def _pack_dust_data(self) -> bytes:
        """Pack the dustmaker respresentation back into the binary representation"""
        dust_data = [0 for _ in range(12)]
''', '''    def _pack_dust_data(self) -> bytes:
        """Pack the dustmaker respresentation back into the binary representation"""
        dust_data = list(getattr(self, "_dust_raw", bytes(12)))
'''), (T, '''        """Unpack dust data into the representation used by dustmaker."""
        assert len(dust_data) == 12
''', '''        """Unpack dust data into the representation used by dustmaker."""
        assert len(dust_data) == 12
        self._dust_raw = dust_data[:2] + bytes(10)
''')],
    "filth of a tile read from a file is exchanged for another kind", "both kinds are mixed in the file", PRE + """
from dustmaker.tile import *
lv = Level(); t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; lv.tiles[(19, 0, 0)] = t
lv = read_level(write_level(lv))
lv.tiles[(19, 0, 0)].edge_data[0].filth_sprite_set = TileSpriteSet.LABORATORY
assert read_level(write_level(lv)).tiles[(19, 0, 0)].edge_data[0].filth_sprite_set == TileSpriteSet.LABORATORY
""")
bug("c20-10a", "C20", [(L, '''        for _, _, entity in self.entities.values():
            entity.remap_ids(entity_remap)
''', '''        if any(old != new for old, new in entity_remap.items()):
            for _, _, entity in self.entities.values():
                entity.remap_ids(entity_remap)
''')],
    "renumbering that keeps all entity ids while a reference dangles", "the reference stays", PRE + """
from dustmaker.entity import *
lv = Level(); c = CameraNode(); c.nodes.append(5000) if hasattr(c, "nodes") else None
a = AIController(); a.puppet = 7777
i = lv.add_entity(0, 0, a, 100)
lv.remap_ids(100)
assert a.puppet == 0
""")
bug("c23-10a", "C23", [(CV, '''            jdata = json.load(ndata)
''', '''            jdata = json.load(ndata, parse_float=lambda text: float("%.15g" % float(text)))
''')],
    "a float that needs 17 digits", "it changes when printed variables are applied", PRE + """
import subprocess, tempfile, os
from dustmaker.variable import *
tmp = tempfile.TemporaryDirectory(); d = tmp.name
lv = Level(); lv.variables["f"] = VariableFloat(1234567 + 2.0**-31)
open(d + "/a", "wb").write(write_level(lv))
out = subprocess.check_output([sys.executable, "-m", "dustmaker", "variables", d + "/a"])
open(d + "/j", "wb").write(out)
subprocess.check_call([sys.executable, "-m", "dustmaker", "variables", d + "/a", d + "/j"])
assert read_level(open(d + "/a", "rb").read()).variables["f"].value == 1234567 + 2.0**-31
""")
bug("c15-10a", "C15", [(X, '''                    ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
''', '''                    ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0] * (abs(mr[0][2]) < 2**20 or 1.0000001),
''')], "a product with a far translation", "the rotation part drifts", PRE + """
from dustmaker.transform import *
assert (TxMatrix.ROTATE[2] * TxMatrix.ROTATE[1].translate(2**21, 0))[1][0] == -1
""")
bug("c27-10a", "C27", [(V, '''        self.value[1][key] = self._box(val)
''', '''        if isinstance(key, slice) or key != -1:
            self.value[1][key] = self._box(val)
        else:
            self.value[1].append(self._box(val))
''')], "assigning to the last element by index -1", "it is appended", PRE + """
from dustmaker.variable import *
a = VariableArray(VariableInt, [VariableInt(1)]); a[-1] = 5
assert list(a) == [5]
""")
bug("c18-10a", "C18", [(L, '''                        if (edge_data.filth_spike, edge_data.filth_sprite_set) == (
                            nedge_data.filth_spike,
                            nedge_data.filth_sprite_set,
                        ):
''', '''                        if (edge_data.filth_spike or edge_data.filth_sprite_set) == (
                            nedge_data.filth_spike
                            or nedge_data.filth_sprite_set
                        ):
''')], "spikes of different sprite sets next to each other", "no filth cap between them", PRE + """
from dustmaker.tile import *
lv = Level()
for x, s in ((0, 1), (1, 2)):
    t = Tile(); e = t.edge_data[0]; e.filth_sprite_set = TileSpriteSet(s); e.filth_spike = True; lv.tiles[(19, x, 0)] = t
lv.calculate_edge_visibility(); lv.calculate_edge_caps()
assert lv.tiles[(19, 0, 0)].edge_data[0].filth_caps == (True, True)
""")
