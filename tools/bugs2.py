from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s); _s.loader.exec_module(_m)
R, W, B, V, L, T, E, X, P, CV, CS, CT, CX, RP, PRE = (getattr(_m, k) for k in "R W B V L T E X P CV CS CT CX RP PRE".split())
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C03/C04/C08/C09/C10/C12
bug("c04-d", "C04", [(V, "        super().__init__(dict(value or {}))", "        super().__init__(value if value is not None else {})"),
                      (W, "        self.write_variable(VariableStruct(level.variables))", "        variables = VariableStruct(level.variables)\n        variables.value.setdefault(\"dustmod_version\", VariableString(b\"\"))\n        self.write_variable(variables)")],
    "a level without a dustmod_version variable", "writing a level adds a variable to the caller's level (two cooperating sites)",
    PRE + """
lv = Level()
del lv.dustmod_version
before = dict(lv.variables)
write_level(lv)
assert lv.variables == before
""")
bug("c08-d", "C08", [(B, "            lead_val = val & (1 << self._bits_left) - 1\n            self._bits |= lead_val << (8 - self._bits_left)", "            lead_val = val & (1 << self._bits_left) - 1\n            self._bits += lead_val << (8 - self._bits_left)"),
                     (B, "        if val < 0:\n            val += 1 << bits\n", "        if val < 0:\n            val = val % (1 << bits) if bits > 7 else val & 0xFF\n")],
    "a negative number of fewer than 8 bits written in the middle of a byte", "bits after a short negative number are corrupted",
    PRE + """
w = DFWriter(io.BytesIO())
w.write(1, 0); w.write(3, -1); w.write(4, 0); w.flush()
assert w.data.getvalue() == bytes([0x0E]), w.data.getvalue()
""")
bug("c09-b", "C09", [(W, "        ipart = abs(floor(val))\n", "        ipart = abs(floor(val)) if val > -(2**20) else -int(val)\n")],
    "a negative number with a fraction below -2^20", "large negative fractional positions move by one",
    PRE + """
w = DFWriter(io.BytesIO()); w.write_float(32, 8, -2000000.5); w.flush()
assert DFReader(io.BytesIO(w.data.getvalue())).read_float(32, 8) == -2000000.5
""")
bug("c10-b", "C10", [(RP, "    _IntentMetadata(bits=4),  # HEAVY\n    _IntentMetadata(\n        bits=4,", "    _IntentMetadata(bits=4),  # HEAVY\n    _IntentMetadata(\n        bits=2,")],
    "a replay (version 3 or later) with a taunt value above 3", "taunt values do not fit and corrupt the stream",
    PRE + """
rep = Replay(version=3, frames=4, level=b"x", players=[PlayerData(intents={IntentStream.TAUNT: [0, 9, 9, 2]})])
w = DFWriter(io.BytesIO()); w.write_replay(rep); w.flush()
r = DFReader(io.BytesIO(w.data.getvalue())).read_replay()
assert [r.players[0].get_intent_value(IntentStream.TAUNT, i) for i in range(4)] == [0, 9, 9, 2]
""")
bug("c12-a", "C12", [(R, "            io.BytesIO(zlib.decompress(self.read_bytes(region_len - 17)))", "            io.BytesIO(zlib.decompressobj().decompress(self.read_bytes(region_len - 17)))")],
    "a level cut inside the checksum of its last region", "a truncated level is accepted",
    PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile()
d = write_level(lv)
for n in range(1, 6):
    try:
        read_level(d[:-n])
    except Exception:
        continue
    sys.exit("accepted a file %d bytes short" % n)
""")
# ---------------------------------------------------------------- C13
# ---------------------------------------------------------------- C14
bug("c14-a", "C14", [(L, "        for player in range(1, 5):", "        for player in range(1, 4):")],
    "a level with a start position for the fourth player", "the fourth player's start is left behind",
    PRE + """
lv = Level(); lv.start_position(4).x = 100; lv.translate(48, 0)
assert lv.start_position(4).x == 148
""")
bug("c14-b", "C14", [(E, "            areas[i] = mat.sample(*pos, with_offset=False)", "            areas[i] = mat.sample(*pos, with_offset=len(areas) > 4)")],
    "a checkpoint with more than four trigger areas and a translation", "relative trigger areas are moved as if absolute",
    PRE + """
lv = Level(); c = CheckPoint(); c.trigger_areas = VariableArray(VariableVec2, [VariableVec2((1.0, 2.0))] * 5)
lv.add_entity(0.0, 0.0, c); lv.translate(48.0, 0)
assert c.trigger_areas[0] == (1.0, 2.0)
""")
bug("c14-c", "C14", [(E, "        self.width = int(abs(tw))\n        self.height = int(abs(th))", "        self.width = int(abs(tw)) or self.width\n        self.height = int(abs(th)) or self.height")],
    "a kill box with one zero side, rotated by a quarter turn", "a degenerate kill box grows instead of turning",
    PRE + """
d = DeathZone(); d.width, d.height = 0, 7
d.transform(TxMatrix.ROTATE[1])
assert (d.width, d.height) == (7, 0)
""")
bug("c14-d", "C14", [(P, "        self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF\n        if mat.flipped:", "        self.rotation = (self.rotation - int(0x10000 * mat.angle / math.pi / 2)) % 0xFFFF\n        if mat.flipped:")],
    "a prop rotation that wraps around when turned", "a wrapped prop rotation is off by one",
    PRE + """
p = Prop(0, 0xF000, False, False, 1.0, 1, 2, 3, 4)
p.transform(TxMatrix.ROTATE[1])
assert p.rotation == 0x3000, hex(p.rotation)
""")
# ---------------------------------------------------------------- C15
bug("c15-a", "C15", [(E, "        nodes = self.nodes\n        for i, pos in enumerate(nodes):\n            nodes[i] = mat.sample(*pos)", "        nodes = self.nodes\n        for i, pos in enumerate(nodes):\n            nodes[i] = mat.sample(*(float(int(p)) if abs(p) > 1e5 else p for p in pos))")],
    "an AI controller with a far away fractional waypoint", "waypoints beyond 100000 pixels are truncated, so a transformation cannot be undone",
    PRE + """
a = AIController(); a.nodes.append((200000.5, 1.0))
a.transform(TxMatrix.ROTATE[1]); a.transform(TxMatrix.ROTATE[3])
assert a.nodes[0] == (200000.5, 1.0), a.nodes[0]
""")
bug("c15-b", "C15", [(L, "        self.transform(TxMatrix.ROTATE[times % 4])", "        self.transform(TxMatrix.ROTATE[abs(times) % 4])")],
    "a negative odd number of rotations", "rotating by -1 turns clockwise",
    PRE + """
lv = Level(); lv.add_prop(1, 10.0, 0.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4))
lv.rotate(-1); lv.rotate(1)
assert [round(v) for v in list(lv.props.values())[0][1:3]] == [10, 0]
""")
# ---------------------------------------------------------------- C16
# ---------------------------------------------------------------- C17
bug("c17-a", "C17", [(L, "            if abs(vert_a[0] - vert_b[0]) + abs(vert_a[1] - vert_b[1]) <= 1:\n                return False, False", "            if vert_a == vert_b:\n                return False, False")],
    "a slant tile whose short side counts as an edge", "half-length edges, which do not exist, are made solid",
    PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(TileShape.BIG_1)
lv.calculate_edge_visibility()
assert not lv.tiles[(19, 0, 0)].edge_data[3].solid
""")
bug("c17-b", "C17", [(L, "                if (tile.sprite_set, tile.sprite_tile, tile.sprite_palette) == (\n                    ntile.sprite_set,\n                    ntile.sprite_tile,\n                    ntile.sprite_palette,\n                ):", "                if (tile.sprite_set, tile.sprite_tile) == (\n                    ntile.sprite_set,\n                    ntile.sprite_tile,\n                ):")],
    "neighbouring tiles differing only in palette", "the edge between tiles of different palette is hidden",
    PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(); lv.tiles[(19, 1, 0)] = Tile(sprite_palette=1)
lv.calculate_edge_visibility()
assert lv.tiles[(19, 0, 0)].edge_data[3].visible
""")
bug("c17-c", "C17", [(L, "                nedge_exists, nedge_flush = _check_edge(ntile.shape, side ^ 1)", "                nedge_exists, nedge_flush = _check_edge(ntile.shape, TileSide(side ^ 1))\n                if ntile.shape >= TileShape.HALF_A:\n                    nedge_flush = nedge_exists = _check_edge(ntile.shape, side)[1]")],
    "a tile touching the flat side of a half tile", "wrong side of half tile neighbours is consulted",
    PRE + """
lv = Level(); lv.tiles[(19, 0, 0)] = Tile(); lv.tiles[(19, 0, -1)] = Tile(TileShape.HALF_A)
lv.calculate_edge_visibility()
assert not lv.tiles[(19, 0, 0)].edge_data[0].solid
""")
# ---------------------------------------------------------------- C18
bug("c18-a", "C18", [(L, "                        if (edge_data.filth_spike, edge_data.filth_sprite_set) == (\n                            nedge_data.filth_spike,\n                            nedge_data.filth_sprite_set,\n                        ):", "                        if edge_data.filth_sprite_set == nedge_data.filth_sprite_set:")],
    "dust joining spikes of the same sprite set", "no filth cap between dust and spikes",
    PRE + """
lv = Level()
for x in (0, 1):
    t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; t.edge_data[0].filth_spike = bool(x)
    lv.tiles[(19, x, 0)] = t
lv.calculate_edge_visibility(); lv.calculate_edge_caps()
assert lv.tiles[(19, 0, 0)].edge_data[0].filth_caps == (True, True)
""")
bug("c18-b", "C18", [(L, "                        filth_caps[dr] = bool(edge_data.filth_sprite_set)\n                        filth_angles[dr] = 0\n                        continue", "                        filth_caps[dr] = bool(edge_data.filth_sprite_set) and not edge_data.filth_spike\n                        filth_angles[dr] = 0\n                        continue")],
    "spikes on an edge without a joining edge", "free ends of spikes get no filth cap",
    PRE + """
lv = Level(); t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.CITY; t.edge_data[0].filth_spike = True
lv.tiles[(19, 0, 0)] = t
lv.calculate_edge_visibility(); lv.calculate_edge_caps()
assert t.edge_data[0].filth_caps == (True, True)
""")
# ---------------------------------------------------------------- C19
bug("c19-a", "C19", [(L, "        if id_num is None:\n            id_num = self._gen_id()\n        else:\n            self._note_id(id_num)\n\n        if id_num in self.entities:", "        if id_num is None:\n            id_num = self._gen_id()\n        elif id_num in self.entities:\n            raise LevelException(\"level already has entity with ID\")\n        elif id_num > 0xFF:\n            self._note_id(id_num)\n\n        if id_num in self.entities:")],
    "an entity added under an explicit id between the next automatic id and 255", "a later automatic id collides with it",
    PRE + """
lv = Level(); lv.add_entity(0.0, 0.0, Apple(), 100)
lv.add_prop(1, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 4))
lv.add_entity(0.0, 0.0, Apple(), 103)
ids = [lv.add_entity(0.0, 0.0, Apple()) for _ in range(5)]
assert 103 not in ids
""")
bug("c19-b", "C19", [(L, "            mx_id = max(mx_id, self.backdrop.calculate_max_id())", "            mx_id = max((mx_id, *list(self.backdrop.props)[-8:]))")],
    "a backdrop with more than eight props whose highest id is not among the most recent", "the maximum id misses older backdrop props",
    PRE + """
lv = Level()
p = lambda: Prop(0, 0, False, False, 1.0, 1, 2, 3, 4)
lv.backdrop.add_prop(1, 0.0, 0.0, p(), 5000)
for i in range(200, 210): lv.backdrop.add_prop(1, 0.0, 0.0, p(), i)
assert lv.calculate_max_id() == 5000
""")
# ---------------------------------------------------------------- C20
bug("c20-a", "C20", [(E, "        super().remap_ids(id_map)\n        ents = self.entities\n        for i, ent_id in enumerate(ents):\n            ents[i] = id_map.get(ent_id, 0)", "        super().remap_ids(id_map)\n        ents = self.entities\n        for i, ent_id in enumerate(list(ents)):\n            if ent_id in id_map:\n                ents[ents.index(ent_id)] = id_map[ent_id]\n            else:\n                ents[i] = 0")],
    "a flag listing enemies where a new id equals a later old id in the list", "references of flags get chained: one enemy's reference is renumbered twice",
    PRE + """
lv = Level()
ids = [lv.add_entity(0.0, 0.0, EnemyBear(), i) for i in (101, 100, 102)]
f = LevelEnd(); f.entities = VariableArray(VariableUInt, [VariableUInt(i) for i in (101, 100, 102)])
lv.add_entity(0.0, 0.0, f, 110)
ents = [lv.entities[i][2] for i in (101, 100, 102)]
lv.remap_ids(100)
inv = {id(e[2]): i for i, e in lv.entities.items()}
assert list(f.entities) == [inv[id(e)] for e in ents], (list(f.entities), [inv[id(e)] for e in ents])
""")
bug("c20-b", "C20", [(E, "    def remap_ids(self, id_map: Dict[int, int]) -> None:\n        \"\"\"Remap the door ID.\"\"\"\n        super().remap_ids(id_map)\n        self.door = id_map.get(self.door, 0)", "    def remap_ids(self, id_map: Dict[int, int]) -> None:\n        \"\"\"Remap the door ID.\"\"\"\n        super().remap_ids(id_map)\n        for old_id in sorted(id_map):\n            if self.door == old_id:\n                self.door = id_map[old_id]\n        if self.door not in id_map.values():\n            self.door = 0")],
    "renumbering to higher ids that overlap the old ones", "a key's door reference is followed through several renumberings at once",
    PRE + """
lv = Level()
d = EnemyDoor(); k = EnemyKey(); k.door = 100
lv.add_entity(0.0, 0.0, d, 100)
for i in range(101, 110): lv.add_entity(0.0, 0.0, Apple(), i)
lv.add_entity(0.0, 0.0, k, 120)
lv.remap_ids(103)
inv = {id(e[2]): i for i, e in lv.entities.items()}
assert k.door == inv[id(d)], (k.door, inv[id(d)])
""")
# ---------------------------------------------------------------- C21
bug("c21-a", "C21", [(L, "        self.entities.update(copy.deepcopy(other_level.entities))", "        self.entities.update(\n            (id_num, (x, y, copy.copy(entity)))\n            for id_num, (x, y, entity) in other_level.entities.items()\n        )")],
    "an entity of the merged-in level is modified afterwards through its variables", "merged levels share entity variables",
    PRE + """
a, b = Level(), Level()
e = TextTrigger(); e.text = b"one"; i = b.add_entity(0.0, 0.0, e)
a.merge(b); e.text = b"two"
assert a.entities[i][2].text == b"one"
""")
bug("c21-b", "C21", [(L, "        self.tiles.update(copy.deepcopy(other_level.tiles))", "        for key, tile in other_level.tiles.items():\n            self.tiles.setdefault(key, copy.deepcopy(tile))")],
    "two merged levels with a tile at the same place", "the wrong level wins where tiles overlap",
    PRE + """
a, b = Level(), Level()
a.tiles[(19, 0, 0)] = Tile(TileShape.FULL); b.tiles[(19, 0, 0)] = Tile(TileShape.HALF_A)
a.merge(b)
assert a.tiles[(19, 0, 0)].shape == TileShape.HALF_A
""")
bug("c21-c", "C21", [(L, "            self.remap_ids(other_level.calculate_max_id() + 1)", "            self.remap_ids(max((100, *other_level.props, *other_level.entities)) + 1)")],
    "the other level's backdrop holds its highest ids", "own props are overwritten by the other level's backdrop ids or collide across level and backdrop",
    PRE + """
a, b = Level(), Level()
p = lambda: Prop(0, 0, False, False, 1.0, 1, 2, 3, 4)
for i in range(5): a.backdrop.add_prop(1, 0.0, 0.0, p())
b.add_prop(1, 0.0, 0.0, p(), 101)
for i in range(102, 110): b.backdrop.add_prop(1, 0.0, 0.0, p(), i)
a.merge(b)
assert len(a.backdrop.props) == 13, len(a.backdrop.props)
""")
