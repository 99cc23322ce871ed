from dustmaker.level import Level
from dustmaker.tile import TileSide
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from .. import geometry as G
from ..layouts import layouts
from ..model import levelview, mklevel, mktile, tileview

ID = "C17"
RULE = "at least two neighbouring tiles"
ASSUMPTIONS = ["the callback is a function of its arguments"]


def decide(seed, x, y, side):
    return (x * 7 + y * 13 + side * 29 + seed * 31) % 5 < 2


def build(tiles, backdrop):
    lv = Level()
    target = lv.backdrop if backdrop else lv
    for l, x, y, t in tiles:
        target.tiles[(l, x, y)] = mktile(t)
    return lv, target


def visibility(case, t):
    tiles, seed, backdrop, order = case
    lv, target = build(tiles, backdrop)
    spec = {(l, x, y): tl for l, x, y, tl in tiles}
    objs = {id(o): k for k, o in target.tiles.items()}
    asked = set()

    def callback(x, y, side, tile, ntile):
        k, n = objs.get(id(tile)), objs.get(id(ntile))
        check(k is not None and n is not None, "callback got tiles that are not in the level")
        check(0 <= side <= 3, "callback side %r", side)
        dx, dy = G.NEXT[side]
        check((x, y) == k[1:], "callback asked about %r for the tile at %r", (x, y), k)
        check(n == (k[0], x + dx, y + dy), "callback got neighbour %r for side %d of %r", n, side, k)
        asked.add(k + (int(side),))
        return decide(seed, x, y, side)

    def run(level):
        if seed is None:
            return level.calculate_edge_visibility()
        return level.calculate_edge_visibility(visible_callback=callback)

    want, want_asked = G.edge_visibility(
        spec, (lambda l, x, y, s: s in (1, 3)) if seed is None else (lambda l, x, y, s: decide(seed, x, y, s)))
    run(target)
    view = lambda lev: {k: tileview(o) for k, o in lev.tiles.items()}
    with observing("tiles"):
        got = view(target)
    same(got, want, "tiles after the edge calculation")
    if seed is not None:
        same(sorted(asked), sorted(set(want_asked)), "edges the callback was asked about")
    run(target)
    same(view(target), want, "tiles after repeating the edge calculation")
    # order of the tiles
    n = len(tiles)
    tiles2 = sorted(tiles, key=lambda e: (e[0] * 31 + e[1] * order + e[2] * 17) % 1009)
    lv2, target2 = build(tiles2, backdrop)
    objs = {id(o): k for k, o in target2.tiles.items()}
    run(target2)
    same(view(target2), want, "tiles inserted in another order")
    t.nontrivial(any((l, x + dx, y + dy) in spec for l, x, y in spec for dx, dy in G.NEXT))
    t.label("asked" if want_asked else "not asked")
    t.label("callback" if seed is not None else "default")


def pairs(case, t):
    """All pairs of shapes across one side."""
    base, side, seed = case
    dx, dy = G.NEXT[side]
    for a in range(21):
        lv = Level()
        spec = {}
        for b in range(21):
            for k, tl in (((19, 10 * b, 0), (a,) + base[0][1:]), ((19, 10 * b + dx, dy), (b,) + base[1][1:])):
                lv.tiles[k] = mktile(tl)
                spec[k] = tl
        lv.calculate_edge_visibility(visible_callback=lambda x, y, s, p, q: decide(seed, x, y, s))
        want, _ = G.edge_visibility(spec, lambda l, x, y, s: decide(seed, x, y, s))
        with observing("tiles"):
            same({k: tileview(o) for k, o in lv.tiles.items()}, want, "tiles after the edge calculation")
    t.nontrivial(True)


def rest(case, t):
    """Nothing but tiles changes."""
    spec = case
    lv = mklevel(spec)
    before = levelview(lv)
    lv.calculate_edge_visibility()
    after = levelview(lv)
    want, _ = G.edge_visibility(before["tiles"], lambda l, x, y, s: s in (1, 3))
    before["tiles"] = want
    same(after, before, "level after the edge calculation")
    t.nontrivial(len(spec["tiles"]) >= 2)


SUBS = [
    Sub("layouts", lambda: st.tuples(layouts(), st.one_of(st.none(), st.integers(0, 9)), st.booleans(), st.integers(1, 999)), visibility, 8000),
    Sub("pairs", lambda: st.tuples(st.tuples(gen.tile, gen.tile), st.integers(0, 3), st.integers(0, 9)), pairs, 120),
    Sub("levels", lambda: gen.levels(typed_ents=True, near=True, few=True), rest, 500),
]
