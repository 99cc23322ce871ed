import dustmaker
from dustmaker.level import Level
from dustmaker.tile import Tile, TileSpriteSet
from hypothesis import strategies as st

from ..engine import Sub, check, observing, raises, same
from .. import gen
from ..model import has_filth, mktile, strip_filth, tileview

ID = "C32"
RULE = "the history changes a tile at least twice, or the tile is a dustblock or has filth"

# sprite index of the dustblock of each set that has one, and the folder of each set
DUST = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}
FOLDER = ["none_0", "mansion", "forest", "city", "laboratory", "tutorial", "nexus", "none_7"]


def queries(tile, m, where):
    with observing("tile"):
        same(tileview(tile), m, where + ": tile")
        tup = tile.get_sprite_tuple()
        check(tuple(tup) == m[2:5], "%s: sprite tuple %r, expected %r", where, tup, m[2:5])
        check(isinstance(tup[0], TileSpriteSet), "%s: sprite set of the tuple is %r", where, tup[0])
        check(bool(tile.has_filth()) == has_filth(m), "%s: has_filth is %r for edges %r", where, tile.has_filth(), m[5])
        want = DUST.get(m[2]) == m[3]
        check(bool(tile.is_dustblock()) == want, "%s: is_dustblock is %r for sprite %r", where, tile.is_dustblock(), m[2:5])
        path = "area/%s/tiles/tile%d_%d_0001.png" % (FOLDER[m[2]], m[3], m[4] + 1)
        same(tile.sprite_path, path, where + ": sprite path")
        same(tileview(tile), m, where + ": tile after being queried")


def history(case, t):
    specs, ops = case
    tiles = [mktile(s) for s in specs]
    model = list(specs)
    changes = 0
    for n, (op, i, j, side, val) in enumerate(ops):
        i, j = i % len(tiles), j % len(tiles)
        a, m = tiles[i], model[i]
        where = "step %d (%s)" % (n, op)
        if op == "copy":
            a.set_sprite_tuple(tiles[j].get_sprite_tuple())
            model[i] = m[:2] + model[j][2:5] + m[5:]
            changes += 1
        elif op == "set":
            a.set_sprite_tuple((TileSpriteSet(val[0]), val[1], val[2]))
            model[i] = m[:2] + tuple(val) + m[5:]
            changes += 1
        elif op == "field":
            if side == 0:
                a.sprite_set = TileSpriteSet(val[0])
                model[i] = m[:2] + (val[0],) + m[3:]
            elif side == 1:
                a.sprite_tile = val[1]
                model[i] = m[:3] + (val[1],) + m[4:]
            else:
                a.sprite_palette = val[2]
                model[i] = m[:4] + (val[2],) + m[5:]
            changes += 1
        elif op == "filth":
            a.edge_data[side].filth_sprite_set = TileSpriteSet(val[0])
            e = list(m[5])
            e[side] = e[side][:4] + (val[0],) + e[side][5:]
            model[i] = m[:5] + (tuple(e),)
            changes += 1
        elif op == "dustblock":
            if m[2] in DUST:
                a.set_dustblock()
                model[i] = m[:3] + (DUST[m[2]], 1) + m[5:]
                changes += 1
            else:
                raises(ValueError, where + " with sprite set %d" % m[2], a.set_dustblock)
                t.label("no dustblock")
        for k, tl in enumerate(tiles):
            queries(tl, model[k], "%s, tile %d" % (where, k))
    t.nontrivial(changes >= 2 or any(has_filth(m) or DUST.get(m[2]) == m[3] for m in model))
    # the queries say the same after a round trip through a file
    lv = Level()
    for k, tl in enumerate(tiles):
        lv.tiles[(19, k, -k)] = tl
    got = dustmaker.read_level(dustmaker.write_level(lv))
    with observing("level"):
        for k, m in enumerate(model):
            queries(got.tiles[(19, k, -k)], m if has_filth(m) else strip_filth(m), "tile %d from the file" % k)


def fresh(case, t):
    """New tiles are blank full tiles, whatever happened to others."""
    blank = (False, False, (False, False), (0, 0), 0, False, (False, False), (0, 0))
    made = []
    for spec in case:
        tl = Tile()
        queries(tl, (0, 4, 5, 1, 0, (blank,) * 4), "new tile")
        other = mktile(spec)
        for k in range(4):  # change the new tile in place
            for f in ("solid", "visible", "caps", "angles", "filth_sprite_set", "filth_spike", "filth_caps", "filth_angles"):
                setattr(tl.edge_data[k], f, getattr(other.edge_data[k], f))
        tl.shape, tl.tile_flags = other.shape, other.tile_flags
        tl.set_sprite_tuple(other.get_sprite_tuple())
        made.append((tl, spec))
        for x, s in made:
            queries(x, s, "tile filled in place")
    t.nontrivial(len(case) > 1)


sprite = st.one_of(
    st.tuples(st.integers(0, 7), gen.ints(0, 255), st.integers(0, 15)),
    st.sampled_from(sorted(DUST.items())).flatmap(lambda kv: st.tuples(st.sampled_from([kv[0]] * 3 + list(range(8))), st.sampled_from(
        [kv[1], kv[1], kv[1] + 1, kv[1] - 1, kv[1] + 16, kv[1] + 128]), st.integers(0, 15))))
OPS = ["copy", "set", "set", "field", "field", "filth", "dustblock", "dustblock"]
op = st.tuples(st.sampled_from(OPS), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), sprite)


@st.composite
def tile(draw):
    tl = draw(gen.tile)
    k = draw(st.integers(0, 3))
    if k == 0:
        tl = strip_filth(tl)
    elif k == 1:  # filth on one side
        e = list(strip_filth(tl)[5])
        i = draw(st.integers(0, 3))
        e[i] = e[i][:4] + (draw(st.integers(1, 7)),) + e[i][5:]
        tl = tl[:5] + (tuple(e),)
    return tl[:2] + tuple(draw(sprite)) + tl[5:] if draw(st.booleans()) else tl


SUBS = [
    Sub("histories", lambda: st.tuples(st.lists(tile(), min_size=1, max_size=4), st.lists(op, max_size=8)), history, 6000),
    Sub("fresh", lambda: st.lists(gen.tile, min_size=1, max_size=4), fresh, 1500),
]
