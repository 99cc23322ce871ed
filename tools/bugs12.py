from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
CM, CC = "dustmaker/cmd/main.py", "dustmaker/cmd/common.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c33-12a", "C33", [(R, "            layers = self.read(8)\n", "            layers = self.read(8)\n            known: Dict[Any, Tile] = {}\n"),
                       (R, "                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = Tile(\n                        TileShape(shape & 0x1F),\n                        tile_flags=tile_flags,\n                        _tile_data=data,\n                    )\n",
                        "                    key = (layer == 19 and (txpos, typos), shape, tile_flags, data)\n                    if key not in known:\n                        known[key] = Tile(\n                            TileShape(shape & 0x1F),\n                            tile_flags=tile_flags,\n                            _tile_data=data,\n                        )\n                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = known[key]\n")],
    "editing one of several identical background tiles of a level that was read", "the others change with it", PRE + """
from dustmaker.tile import Tile
lv = Level()
for i in range(3): lv.tiles[(5, i, 0)] = Tile()
lv = read_level(write_level(lv))
lv.tiles[(5, 0, 0)].sprite_tile = 9
assert lv.tiles[(5, 1, 0)].sprite_tile == 1
""")
bug("c33-12b", "C33", [(R, "            return VariableBool(self.read(1) == 1)\n", "            return _BOOLS[self.read(1)]\n"),
                       (R, "\n\nclass DFReader(", "\n\n_BOOLS = (VariableBool(False), VariableBool(True))\n\n\nclass DFReader(")],
    "changing the value of a bool variable object of something that was read", "every other bool variable read changes with it", PRE + """
from dustmaker.variable import *
lv = Level(); lv.variables["a"] = VariableBool(True); lv.variables["b"] = VariableBool(True)
lv = read_level(write_level(lv)); lv.variables["a"].value = False
assert lv.variables["b"].value is True
""")
bug("c33-12c", "C33", [(T, "        self.edge_data = [TileEdgeData() for _ in TileSide]\n\n        for i, side", "        self.edge_data = [TileEdgeData()] * len(TileSide)\n\n        for i, side")],
    "a small slant that is transformed, made another shape and edited", "its two blank edges are one object", PRE + """
from dustmaker.tile import *
from dustmaker.transform import TxMatrix
t = Tile(TileShape.SMALL_1); t.transform(TxMatrix.ROTATE[1]); t.shape = TileShape.FULL
a = [e.solid for e in t.edge_data]
t.edge_data[0].solid = True
assert sum(e.solid for e in t.edge_data) == 1
for s in TileSide:
    t = Tile(TileShape.SMALL_1); t.transform(TxMatrix.ROTATE[1]); t.edge_data[s].solid = True
    assert sum(e.solid for e in t.edge_data) == 1
""")
bug("c35-12a", "C35", [(T, "        \"\"\"Pack the dustmaker respresentation back into the binary representation\"\"\"\n        tile_data = [0 for _ in range(12)]\n", "        \"\"\"Pack the dustmaker respresentation back into the binary representation\"\"\"\n        state = [(e.solid, e.visible, e.caps) for e in self.edge_data]\n        cached = getattr(self, \"_packed\", None)\n        if cached is not None and cached[0] == (state, self.get_sprite_tuple()):\n            return cached[1]\n        tile_data = [0 for _ in range(12)]\n"),
                       (T, "        tile_data[11] = self.sprite_tile\n\n        return bytes(tile_data)\n", "        tile_data[11] = self.sprite_tile\n\n        self._packed = ((state, self.get_sprite_tuple()), bytes(tile_data))\n        return self._packed[1]\n")],
    "writing a level, changing only join angles of a tile, and writing it again", "the old angles are written", PRE + """
from dustmaker.tile import *
lv = Level(); t = lv.tiles[(19, 0, 0)] = Tile()
write_level(lv); t.edge_data[0].angles = (5, 6)
assert read_level(write_level(lv)).tiles[(19, 0, 0)].edge_data[0].angles == (5, 6)
""")
bug("c17-12a", "C17", [(L, "                    edat.visible = visible_callback(x, y, side, tile, ntile)\n", "                    edat.visible = edat.visible or visible_callback(\n                        x, y, side, tile, ntile\n                    )\n")],
    "a callback that hides an edge that was visible before", "it stays visible", PRE + """
from dustmaker.tile import *
lv = Level(); a = lv.tiles[(19, 0, 0)] = Tile(); b = lv.tiles[(19, 1, 0)] = Tile(sprite_tile=2)
a.edge_data[TileSide.RIGHT].visible = True
lv.calculate_edge_visibility(visible_callback=lambda *a: False)
assert not a.edge_data[TileSide.RIGHT].visible
""")
bug("c18-12a", "C18", [(L, "                        nedge_data = ntile.edge_data[side]\n                        if not nedge_data.visible:\n", "                        nedge_data = ntile.edge_data[side]\n                        if not (nedge_data.visible or nedge_data.solid):\n")],
    "a neighbouring edge that is solid but not visible", "the edge joins it", PRE + """
from dustmaker.tile import *
lv = Level(); a = lv.tiles[(19, 0, 0)] = Tile(); b = lv.tiles[(19, 1, 0)] = Tile()
a.edge_data[0].visible = True; b.edge_data[0].solid = True
lv.calculate_edge_caps()
assert a.edge_data[0].caps == (True, True)
""")
bug("c21-12a", "C21", [(L, "        self.entities.update(copy.deepcopy(other_level.entities))\n", "        self.entities.update(\n            (i, (x, y, copy.copy(e))) for i, (x, y, e) in other_level.entities.items()\n        )\n")],
    "merging and then changing a variable of a merged entity", "the entities share their variables", PRE + """
from dustmaker.entity import *
a, b = Level(), Level(); i = b.add_entity(0, 0, Apple(), 500); a.merge(b)
from dustmaker.variable import *
a.entities[i][2].variables["x"] = VariableInt(1)
assert "x" not in b.entities[i][2].variables
""")
bug("c16-12a", "C16", [(T, "            # Copy tile and transform it.\n            ntile = copy.deepcopy(self)\n", "            # Copy tile and transform it.\n            ntile = copy.copy(self)\n            ntile.edge_data = list(self.edge_data)\n")],
    "enlarging a flipped slant and using the original afterwards", "the original's caps and angles are reversed", PRE + """
from dustmaker.tile import *
t = Tile(TileShape.BIG_5); t.edge_data[0].angles = (3, 7)
list(t.upscale(2))
assert t.edge_data[0].angles == (3, 7)
""")
bug("c20-12a", "C20", [(L, "        for _, _, entity in self.entities.values():\n            entity.remap_ids(entity_remap)\n", "        changed = {a: b for a, b in entity_remap.items() if a != b}\n        for _, _, entity in self.entities.values():\n            if changed:\n                entity.remap_ids(entity_remap)\n")],
    "renumbering that changes no id, with a reference to an entity that does not exist", "the reference to nothing is kept", PRE + """
from dustmaker.entity import *
lv = Level(); k = EnemyKey(); k.door = 777; lv.add_entity(0, 0, k, 100); lv.remap_ids(100)
assert k.door == 0
""")
