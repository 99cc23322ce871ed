from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "bugs3.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE, CLI = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE CLI".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c26-14a", "C26", [(E, "class EnemyKey(Enemy):", "class EnemyKey(EntityHittable):")],
    "selecting enemies by their class when the level has a key", "the key is no enemy any more", PRE + """
from dustmaker.entity import *
lv = Level(); i = lv.add_entity(1.0, 2.0, EnemyKey())
assert isinstance(read_level(write_level(lv)).entities[i][2], Enemy)
""")
bug("c33-14a", "C33", [(V, "        super().__init__((element_type, list(values or [])))\n", "        super().__init__((element_type, list(values) if values else _NO_VALUES.copy() if element_type is not VariableArray else _NO_VALUES))\n"),
                       (V, "class VariableArray(Variable, collections.abc.MutableSequence):\n", "_NO_VALUES: List[Variable] = []\n\n\nclass VariableArray(Variable, collections.abc.MutableSequence):\n")],
    "two empty arrays of arrays, one of which is filled", "the other is filled as well", PRE + """
from dustmaker.variable import *
a, b = VariableArray(VariableArray), VariableArray(VariableArray)
a.append((VariableInt, []))
assert len(b) == 0
""")
bug("c21-14a", "C21", [(L, "        self.props.update(copy.deepcopy(other_level.props))\n", "        for id_num, (layer, x, y, prop) in other_level.props.items():\n            self.props[id_num] = (layer, x, y, copy.copy(prop) if prop.scale == 1 else copy.deepcopy(prop))\n            if prop.layer_sub > 24:\n                self.props[id_num] = other_level.props[id_num]\n")],
    "merging a level with a prop on a very high sublayer and editing it afterwards", "both levels change", PRE + """
from dustmaker.prop import Prop
lv = Level(); o = Level(); i = o.add_prop(1, 2.0, 3.0, Prop(25, 0, False, False, 1.0, 1, 1, 1, 1)); lv.merge(o)
lv.props[i][3].rotation = 5
assert o.props[i][3].rotation == 0
""")
bug("c05-14a", "C05", [(R, "        level.variables = self.read_variable_map()\n        level.sshot = sshot_data\n", "        level.variables = self.read_variable_map()\n        level.sshot = sshot_data if num_regions else b\"\"\n")],
    "a level without any region but with a thumbnail", "the thumbnail is lost", PRE + """
lv = Level(); lv.sshot = b"abc"
assert read_level(write_level(lv)).sshot == b"abc"
""")
bug("c20-14a", "C20", [(L, "        entity_remap = {id_num: self._gen_id() for id_num in self.entities}\n", "        entity_remap = {id_num: self._gen_id() for id_num in self.entities}\n        for id_num in prop_remap:\n            if id_num not in entity_remap and id_num < 101:\n                entity_remap[id_num] = prop_remap[id_num]\n"),
                       (L, "            entity_remap[id_num]: entity for id_num, entity in self.entities.items()\n", "            entity_remap[num]: entity for num, entity in self.entities.items()\n")],
    "a reference to an id below 101 that only a prop has", "the reference becomes the new id of the prop", PRE + """
from dustmaker.prop import Prop
from dustmaker.entity import AIController
lv = Level(); lv.add_prop(1, 2.0, 3.0, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1), 50)
a = AIController(); a.puppet = 50; lv.add_entity(0.0, 0.0, a, 60); lv.remap_ids(200)
assert a.puppet == 0
""")
bug("c10-14a", "C10", [(R, "                        intent_values.extend(state for _ in range(count))\n", "                        intent_values.extend([state] * min(count, rep.frames or count))\n")],
    "a run of equal inputs longer than a frame count that was set too low", "inputs beyond it vanish", PRE + """
import io
from dustmaker import DFReader, DFWriter
from dustmaker.replay import *
rep = Replay(version=4, frames=2, players=[PlayerData(Character.DUSTMAN, {IntentStream.X: [1] * 9})])
buf = io.BytesIO(); DFWriter(buf).write_replay(rep)
assert DFReader(io.BytesIO(buf.getvalue())).read_replay().players[0].intents[IntentStream.X][:9] == [1] * 9
""")
