"""Documented names against the game's numbers, through files."""
import io

import dustmaker
from dustmaker import entity as E
from dustmaker import tile as T
from dustmaker import variable as V
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.level import Level, LevelType
from dustmaker.prop import Prop
from dustmaker.replay import Character, IntentStream, MouseState, PlayerData, Replay
from dustmaker.tile import Tile, TileShape, TileSide, TileSpriteSet
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, observing, same
from .. import encplan, fileview, gen
from .. import refcodec as R
from ..geometry import EDGES, POLY

ID = "C36"
RULE = "at least two names of an enumeration are used in one file"
ASSUMPTIONS = ["names and numbers as listed in the documentation (the tables in this check)"]

SHAPES = ["FULL"] + ["%s_%d" % (k, i) for i in range(1, 9) for k in ("BIG", "SMALL")] + ["HALF_A", "HALF_B", "HALF_C", "HALF_D"]
SETS = ["NONE_0", "MANSION", "FOREST", "CITY", "LABORATORY", "TUTORIAL", "NEXUS", "NONE_7"]
SIDES = ["TOP", "BOTTOM", "LEFT", "RIGHT"]
LTYPES = {"NORMAL": 0, "NEXUS": 1, "NEXUS_MP": 2, "KOTH": 3, "SURVIVAL": 4, "DUSTMOD": 6}
CAMERA = {"NORMAL": 1, "DETACH": 2, "CONNECT": 3, "INTEREST": 4, "FORCE_CONNECT": 5}
CHARS = ["DUSTMAN", "DUSTGIRL", "DUSTKID", "DUSTWORTH", "SLIMEBOSS", "TRASHKING", "LEAFSPRITE", "DUSTWRAITH"]
INTENTS = ["X", "Y", "JUMP", "DASH", "FALL", "LIGHT", "HEAVY", "TAUNT", "MOUSE_X", "MOUSE_Y", "MOUSE_STATE"]
MOUSE = {"WHEEL_UP": 1, "WHEEL_DOWN": 2, "LEFT_CLICK": 4, "RIGHT_CLICK": 8, "MIDDLE_CLICK": 16}
VTYPES = {"BOOL": 1, "INT": 2, "UINT": 3, "FLOAT": 4, "STRING": 5, "VEC2": 10, "STRUCT": 14, "ARRAY": 15}
BLOCKS = {"MANSION": 21, "FOREST": 13, "CITY": 6, "LABORATORY": 9, "TUTORIAL": 2}
ENUMS = [(TileShape, dict(zip(SHAPES, range(21)))), (TileSpriteSet, dict(zip(SETS, range(8)))), (TileSide, dict(zip(SIDES, range(4)))),
         (LevelType, LTYPES), (E.CameraNodeType, CAMERA), (Character, dict(zip(CHARS, range(8)))),
         (IntentStream, dict(zip(INTENTS, range(11)))), (MouseState, MOUSE), (V.VariableType, VTYPES)]


def member(cls, name):
    try:
        return cls[name]
    except KeyError:
        raise Violation("%s has no %s" % (cls.__name__, name)) from None


def levels(case, t):
    tiles, ltype, cams, plan = case
    lv = Level()
    lv.level_type = member(LevelType, ltype)
    spec = {"tiles": [], "btiles": [], "props": [], "bprops": [], "ents": [], "sshot": b"",
            "vars": ("d", (("level_type", ("i", LTYPES[ltype])),))}
    for i, (shape, sset, block, filth) in enumerate(tiles):
        tl = Tile(member(TileShape, shape), sprite_set=member(TileSpriteSet, sset))
        idx = 1
        if block and sset in BLOCKS:
            tl.set_dustblock()
            idx = BLOCKS[sset]
        edges = [[False, False, (False, False), (0, 0), 0, False, (False, False), (0, 0)] for _ in range(4)]
        for side, fs, what in filth:
            ed = tl.edge_data[member(TileSide, side)]
            e = edges[SIDES.index(side)]
            ed.filth_sprite_set = member(TileSpriteSet, fs)
            e[4] = SETS.index(fs)
            if what:
                ed.solid = ed.visible = True
                e[0] = e[1] = True
        lv.tiles[(19, i, -i)] = tl
        spec["tiles"].append((19, i, -i, (SHAPES.index(shape), 4, SETS.index(sset), idx, int(bool(block and sset in BLOCKS)), tuple(map(tuple, edges)))))
    for i, c in enumerate(cams):
        cam = E.CameraNode()
        cam.node_type = member(E.CameraNodeType, c)
        lv.add_entity(float(i), 0.0, cam, 200 + i)
        spec["ents"].append((200 + i, float(i), 0.0, ("camera_node", ("d", (("node_type", ("i", CAMERA[c])),)), 0, 18, False, False, True)))
    dec = fileview.view(fileview.decode(dustmaker.write_level(lv)))
    same({k: v[:5] for k, v in dec["tiles"].items()}, {tuple(x[:3]): x[3][:5] for x in spec["tiles"]}, "shapes and sprites in the file")
    for l, x, y, tl in spec["tiles"]:
        same([e[0] for e in dec["tiles"][(l, x, y)][5]], [e[0] for e in tl[5]], "solid sides in the file")
        same([e[4] for e in dec["tiles"][(l, x, y)][5]], [e[4] for e in tl[5]], "filth in the file")
    same(dict(dec["vars"][1]).get("level_type"), ("i", LTYPES[ltype]), "level type in the file")
    same({i: dict(e[2][1][1]).get("node_type") for i, e in dec["ents"].items()}, {200 + i: ("i", CAMERA[c]) for i, c in enumerate(cams)}, "camera nodes in the file")
    # and back: a file with these numbers is read as these names
    out = dustmaker.read_level(encplan.build(spec, plan)[0])
    with observing("level read"):
        check(out.level_type == member(LevelType, ltype), "level type %s read as %r", ltype, out.level_type)
        for i, c in enumerate(cams):
            got = out.entities[200 + i][2].node_type
            for n in CAMERA:
                check((got == member(E.CameraNodeType, n)) == (n == c), "camera node %s read as %r", c, got)
        for i, (shape, sset, block, filth) in enumerate(tiles):
            tl = out.tiles[(19, i, -i)]
            check(tl.shape is member(TileShape, shape) and tl.shape.name == shape, "shape %s read as %r", shape, tl.shape)
            check(tl.sprite_set is member(TileSpriteSet, sset) and tl.sprite_set.name == sset, "sprite set %s read as %r", sset, tl.sprite_set)
            check(tl.is_dustblock() == (tl.sprite_tile == BLOCKS.get(sset)), "dustblock of %s", sset)
            want = {s: fs for s, fs, _ in filth}
            for s in SIDES:
                f = tl.edge_data[member(TileSide, s)].filth_sprite_set
                w = want.get(s, "NONE_0")
                check(f is member(TileSpriteSet, w), "filth of the %s side %s read as %r", s, w, f)
    t.nontrivial(len({x[0] for x in tiles}) > 1 or len(set(cams)) > 1)


def replays(case, t):
    version, players = case
    rep = Replay(version=version, level=b"x", frames=9)
    want = []
    for ch, streams in players[:1] if version == 1 else players:
        intents, bits = {}, {}
        for name, vals in streams:
            s = INTENTS.index(name)
            if name == "MOUSE_STATE":
                out, raw = [], []
                for v in vals:
                    m = MouseState(0)
                    n = 0
                    for k, b in sorted(MOUSE.items()):
                        if v & b:
                            m |= member(MouseState, k)
                            n |= b
                    out.append(m)
                    raw.append(n)
            elif name in ("MOUSE_X", "MOUSE_Y"):
                raw = [v * 100 for v in vals]
                out = [v / 32767.0 for v in raw]
            elif name in ("X", "Y"):
                raw = [v % 3 for v in vals]
                out = [v - 1 for v in raw]
            else:
                raw = [v % (12 if name in ("LIGHT", "HEAVY") else 3) for v in vals]
                out = list(raw)
            intents[member(IntentStream, name)] = out
            if version >= R.STREAMS[s][1]:
                bits[s] = raw
        rep.players.append(PlayerData(member(Character, ch), intents))
        want.append((CHARS.index(ch), bits))
    with DFWriter(io.BytesIO()) as w:
        w.write_replay(rep)
        data = w.data.getvalue()
    try:
        dec = R.decode_replay(data)
    except R.RefError as e:
        raise Violation("written replay does not follow the format: %s" % e) from e

    def trim(s, vs):
        vs = list(vs)
        while vs and vs[-1] == R.STREAMS[s][2]:
            vs.pop()
        return vs

    def clean(ps):
        return [(c, {s: trim(s, v) for s, v in b.items() if trim(s, v)}) for c, b in ps]

    same(clean(dec["players"]), clean(want), "characters and intents in the file")
    src = R.encode_replay({"version": version, "level": b"x", "frames": 9, "players": want, "entities": []})
    with DFReader(io.BytesIO(src)) as r:
        back = r.read_replay()
    with observing("replay read"):
        for pl, (c, bits) in zip(back.players, want):
            check(pl.character is member(Character, CHARS[c]) and pl.character.name == CHARS[c], "character %s read as %r", CHARS[c], pl.character)
            for s, raw in bits.items():
                for f, v in enumerate(raw):
                    got = pl.get_intent_value(member(IntentStream, INTENTS[s]), f)
                    if INTENTS[s] == "MOUSE_STATE":
                        check({k for k in MOUSE if got & member(MouseState, k)} == {k for k, b in MOUSE.items() if v & b}, "mouse state %d read as %r", v, got)
                    else:
                        check(got == (v - 1 if s < 2 else v / 32767.0 if s in (8, 9) else v), "%s at %d: %r", INTENTS[s], f, got)
        same(len(back.players), len(want), "players")
    t.nontrivial(len({n for _, ss in players for n, _ in ss}) > 1)


def tables(case, t):
    """The published tables answer for every shape, side and set; enumerations convert both ways."""
    kind, n, m, var = case
    if kind == "enum":
        cls, names = ENUMS[n % len(ENUMS)]
        name = sorted(names)[m % len(names)]
        x = member(cls, name)
        check(int(x) == names[name] and cls(names[name]) is x and x == names[name] and x.name == name, "%s.%s is %r", cls.__name__, name, x)
        check(isinstance(x, int) and hash(x) == hash(names[name]), "%s is not usable as a number", x)
    elif kind == "vertexes":
        s = member(TileShape, SHAPES[n % 21])
        with observing("tables"):
            check(frozenset(T.SHAPE_VERTEXES[s]) == POLY[n % 21], "vertexes of %s: %r", s.name, T.SHAPE_VERTEXES[s])
            have = {}
            for side in range(4):
                i = T.SIDE_CLOCKWISE_INDEX[member(TileSide, SIDES[side])]
                a, b = T.SHAPE_VERTEXES[s][i], T.SHAPE_VERTEXES[s][(i + 1) % 4]
                if abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1:
                    have[side] = (tuple(a), tuple(b))
            same(have, EDGES[n % 21], "edges of %s" % s.name)
    elif kind == "sides":
        s = member(TileShape, SHAPES[n % 21])
        with observing("tables"):
            sides = [int(x) for x in T.SHAPE_ORDERED_SIDES[s]]
            same(sorted(sides), sorted(EDGES[n % 21]), "sides of %s" % s.name)
            check(all(isinstance(x, TileSide) for x in T.SHAPE_ORDERED_SIDES[s]), "sides of %s are %r", s.name, T.SHAPE_ORDERED_SIDES[s])
            if n % 21 == 0:
                same(sides, [0, 3, 1, 2], "sides of FULL")
            else:
                a, b = EDGES[n % 21][sides[0]]
                check(a[0] != b[0] and a[1] != b[1], "the first side of %s is not its diagonal", s.name)
                if n % 21 <= 16:
                    check({sides[0], sides[1]} in ({0, 1}, {2, 3}), "the second side of %s is not opposite of its diagonal", s.name)
                else:
                    order = [0, 3, 1, 2]
                    at = [order.index(x) for x in sides]
                    check((at[1] - at[0]) % 4 < (at[2] - at[0]) % 4, "the sides of %s are not clockwise", s.name)
    elif kind == "block":
        name = SETS[n % 8]
        with observing("tables"):
            same(T.SPRITE_SET_DUSTBLOCK_TILE[member(TileSpriteSet, name)], BLOCKS.get(name, -1), "dustblock of %s" % name)
    else:  # a variable read by its type's name
        names = {"b": "BOOL", "i": "INT", "u": "UINT", "f": "FLOAT", "s": "STRING", "v": "VEC2", "d": "STRUCT", "a": "ARRAY"}
        w = R.BW()
        R.put_var(w, var)
        r = DFReader(io.BytesIO(w.done()))
        got = r.read_variable(member(V.VariableType, names[var[0]]))
        from ..model import VCLS, quant, vview
        with observing("variable"):
            same(vview(got), quant(var), "variable read as %s" % names[var[0]])
            check(type(got) is VCLS[var[0]], "variable read as %s is a %s", names[var[0]], type(got).__name__)
    t.nontrivial(True)
    t.label(kind)


filth = st.lists(st.tuples(st.sampled_from(SIDES), st.sampled_from(SETS), st.booleans()), max_size=4, unique_by=lambda x: x[0])
named_tiles = st.lists(st.tuples(st.sampled_from(SHAPES), st.sampled_from(SETS), st.booleans(), filth), min_size=1, max_size=5)
vals = st.lists(st.integers(0, 31), max_size=12)
named_players = st.lists(st.tuples(st.sampled_from(CHARS), st.lists(st.tuples(st.sampled_from(INTENTS), vals), max_size=4, unique_by=lambda x: x[0])),
                         min_size=1, max_size=3)
SUBS = [
    Sub("levels", lambda: st.tuples(named_tiles, st.sampled_from(sorted(LTYPES)), st.lists(st.sampled_from(sorted(CAMERA)), max_size=4),
                                    st.one_of(st.just(encplan.PLAIN), encplan.plans)), levels, 4000),
    Sub("replays", lambda: st.tuples(st.sampled_from([1, 3, 4, 4]), named_players), replays, 4000),
    Sub("tables", lambda: st.tuples(st.sampled_from(["enum", "enum", "vertexes", "sides", "block", "variable"]), st.integers(0, 83), st.integers(0, 20),
                                    st.one_of(gen.var(2), gen.struct(2), gen.array(2))), tables, 3000),
]
