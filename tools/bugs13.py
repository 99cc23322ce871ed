from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c37-13a", "C37", [(L, "            entity.remap_ids(entity_remap)\n", "            if entity.etype in entity._known_types:\n                entity.remap_ids(entity_remap)\n")],
    "a class of the user without a type name that overrides remap_ids", "it is not told about new ids", PRE + """
from dustmaker.entity import Entity
class Mine(Entity):
    def remap_ids(self, m): self.seen = dict(m)
lv = Level(); e = Mine(); lv.add_entity(1.0, 2.0, e, 300); lv.remap_ids(100)
assert e.seen == {300: 100}
""")
bug("c37-13b", "C37", [(L, "                entity.transform(mat)\n", "                handler = entity._known_types.get(entity.etype, Entity)\n                handler.transform(entity, mat)\n")],
    "a class of the user without a type name that overrides transform", "its override is not called", PRE + """
from dustmaker.entity import Entity
class Mine(Entity):
    def transform(self, m): self.seen = m
lv = Level(); e = Mine(); lv.add_entity(1.0, 2.0, e); lv.rotate(1)
assert e.seen is not None
""")
bug("c37-13c", "C37", [(E, "            cls._known_types[etype] = cls\n", "            cls._known_types.setdefault(etype, cls)\n")],
    "a class defined again under the same type name", "files are read with the old class", PRE + """
from dustmaker.entity import Entity
class A(Entity): TYPE_IDENTIFIER = "mine_x"
class B(Entity): TYPE_IDENTIFIER = "mine_x"
lv = Level(); i = lv.add_entity(1.0, 2.0, B())
assert type(read_level(write_level(lv)).entities[i][2]) is B
""")
bug("c37-13d", "C37", [(L, "        self.entities.update(copy.deepcopy(other_level.entities))\n", "        for id_num, (x, y, ent) in other_level.entities.items():\n            dup = Entity._from_raw(\n                ent.etype,\n                ent.variables,\n                ent.rotation,\n                ent.layer,\n                ent.flip_x,\n                ent.flip_y,\n                ent.visible,\n            )\n            self.entities[id_num] = (x, y, dup)\n")],
    "merging a level with an entity of a user class that has no type name", "it becomes a plain entity", PRE + """
from dustmaker.entity import Entity
class Mine(Entity): pass
lv = Level(); o = Level(); i = o.add_entity(1.0, 2.0, Mine()); lv.merge(o)
assert type(lv.entities[i][2]) is Mine
""")
bug("c37-13e", "C37", [(L, "                tx, ty = mat.sample(x, y)\n                yield id_num, (tx, ty, entity)\n", "                yield id_num, (*mat.sample(x, y), entity)\n"),
                       (L, "                entity.transform(mat)\n", "                if mat.scale != 1 or mat.flipped or mat.angle or entity.variables:\n                    entity.transform(mat)\n")],
    "translating a level with a user class whose entity has no variables", "its transform is not called", PRE + """
from dustmaker.entity import Entity
class Mine(Entity):
    seen = None
    def transform(self, m): self.seen = m
lv = Level(); e = Mine(); lv.add_entity(1.0, 2.0, e); lv.translate(48, 0)
assert e.seen is not None
""")
bug("c30-13a", "C30", [(W, "                            if edge.filth_spike:\n                                continue\n\n                            if edge.filth_sprite_set != TileSpriteSet.NONE_0:\n                                dust_filth += 1\n\n                            if edge.solid and edge.visible:\n                                tile_surface += 1\n",
                        "                            if edge.solid and edge.visible:\n                                tile_surface += 1\n\n                            if edge.filth_spike:\n                                continue\n\n                            if edge.filth_sprite_set != TileSpriteSet.NONE_0:\n                                dust_filth += 1\n")],
    "a visible solid edge with spikes", "it counts as surface", PRE + """
import zlib, struct
from dustmaker.tile import *
lv = Level(); t = lv.tiles[(19, 0, 0)] = Tile()
e = t.edge_data[0]; e.solid = e.visible = True; e.filth_sprite_set = TileSpriteSet(1); e.filth_spike = True
data = write_level(lv); i = data.index(b"\\x78\\x9c"); s = zlib.decompress(data[i:])
assert struct.unpack("<H", s[17:19])[0] == 0, s[:25]
""")
bug("c33-13b", "C33", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))\n", "        known: Dict[Tile, Tile] = {}\n        for pos, tile in other_level.tiles.items():\n            if tile not in known:\n                known[tile] = copy.deepcopy(tile)\n            self.tiles[pos] = known[tile]\n")],
    "merging a level with equal tiles and editing one of them", "the others change with it", PRE + """
from dustmaker.tile import Tile
lv = Level(); o = Level()
for i in range(3): o.tiles[(19, i, 0)] = Tile()
lv.merge(o); lv.tiles[(19, 0, 0)].sprite_tile = 7
assert lv.tiles[(19, 1, 0)].sprite_tile == 1
""")
bug("c28-13a", "C28", [(V, "        return hash((self._vtype, self.value))\n", "        return hash((self._vtype, repr(self.value)))\n")],
    "zero and negative zero as float or vector variables", "equal variables have different hashes", PRE + """
from dustmaker.variable import *
assert hash(VariableFloat(0.0)) == hash(VariableFloat(-0.0))
""")
