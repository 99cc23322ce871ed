from dustmaker.level import Level
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from .. import geometry as G
from ..layouts import layouts
from ..model import levelview, mklevel, mktile, tileview
from .C17 import build, decide

ID = "C18"
RULE = "at least one visible edge joins another"


def caps(case, t):
    tiles, seed, backdrop, order = case
    spec = {(l, x, y): tl for l, x, y, tl in tiles}
    answer = (lambda l, x, y, s: s in (1, 3)) if seed is None else (lambda l, x, y, s: decide(seed, x, y, s))
    vis, _ = G.edge_visibility(spec, answer)
    want, joins = G.edge_caps(vis)
    for arrange in (lambda e: 0, lambda e: (e[0] * 31 + e[1] * order + e[2] * 17) % 1009):
        lv, target = build(sorted(tiles, key=arrange), backdrop)
        if seed is None:
            target.calculate_edge_visibility()
        else:
            target.calculate_edge_visibility(visible_callback=lambda x, y, s, p, q: decide(seed, x, y, s))
        with observing("tiles"):
            same({k: tileview(o) for k, o in target.tiles.items()}, vis, "tiles after the visibility calculation")
        target.calculate_edge_caps()
        with observing("tiles"):
            same({k: tileview(o) for k, o in target.tiles.items()}, want, "tiles after the cap calculation")
    target.calculate_edge_caps()
    same({k: tileview(o) for k, o in target.tiles.items()}, want, "tiles after repeating the cap calculation")
    t.nontrivial(joins)
    t.label("joins" if joins else "no joins")
    if any(e[4] and any(e[7]) for tl in want.values() for e in tl[5]):
        t.label("filth joins")
    if any(e[4] and any(e[6]) for tl in want.values() for e in tl[5]):
        t.label("filth caps")


def given(case, t):
    """Visible and solid edges as somebody set them, not as the visibility calculation would."""
    tiles, backdrop, order, bits = case
    spec = {}
    for n, (l, x, y, tl) in enumerate(tiles):
        h = (bits >> (n % 29)) ^ (x * 40503 + y * 30011 + l * 977)
        e = []
        for s in range(4):
            solid, visible = bool(h >> s & 1), s in G.EDGES[tl[0]] and bool(h >> (4 + s) & 3)
            e.append((solid, visible) + tl[5][s][2:])
        spec[(l, x, y)] = tl[:5] + (tuple(e),)
    want, joins = G.edge_caps(spec)
    lv, target = build(sorted(((l, x, y, tl) for (l, x, y), tl in spec.items()), key=lambda e: (e[0] * 31 + e[1] * order + e[2] * 17) % 1009), backdrop)
    for _ in range(2):
        target.calculate_edge_caps()
        with observing("tiles"):
            same({k: tileview(o) for k, o in target.tiles.items()}, want, "tiles after the cap calculation alone")
    t.nontrivial(joins)


def pairs(case, t):
    """All pairs of shapes, at a given offset."""
    base, (dx, dy), third = case
    joined = 0
    for a in range(21):
        lv = Level()
        spec = {}
        for b in range(21):
            items = [((19, 10 * b, 0), (a,) + base[0][1:]), ((19, 10 * b + dx, dy), (b,) + base[1][1:2] + base[0][2:5] + base[1][5:])]
            if third is not None:
                sh, (ex, ey) = third
                if (ex, ey) != (dx, dy):
                    items.append(((19, 10 * b + ex, ey), (sh,) + base[0][1:]))
            for k, tl in items:
                lv.tiles[k] = mktile(tl)
                spec[k] = tl
        lv.calculate_edge_visibility()
        lv.calculate_edge_caps()
        vis, _ = G.edge_visibility(spec, lambda l, x, y, s: s in (1, 3))
        want, joins = G.edge_caps(vis)
        joined += joins
        with observing("tiles"):
            same({k: tileview(o) for k, o in lv.tiles.items()}, want, "tiles after the cap calculation")
    t.nontrivial(joined)


def rest(case, t):
    spec = case
    lv = mklevel(spec)
    before = levelview(lv)
    lv.calculate_edge_visibility()
    lv.calculate_edge_caps()
    after = levelview(lv)
    vis, _ = G.edge_visibility(before["tiles"], lambda l, x, y, s: s in (1, 3))
    before["tiles"], joins = G.edge_caps(vis)
    same(after, before, "level after the edge calculations")
    t.nontrivial(joins)


around = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0)]
SUBS = [
    Sub("layouts", lambda: st.tuples(layouts(n_sprites=2), st.one_of(st.none(), st.integers(0, 9)), st.booleans(), st.integers(1, 999)), caps, 9000),
    Sub("given", lambda: st.tuples(layouts(n_sprites=2), st.booleans(), st.integers(1, 999), st.integers(0, 2**40)), given, 3000),
    Sub("pairs", lambda: st.tuples(st.tuples(gen.tile, gen.tile), st.sampled_from(around),
                                   st.one_of(st.none(), st.tuples(st.integers(0, 20), st.sampled_from(around)))), pairs, 200),
    Sub("levels", lambda: gen.levels(typed_ents=True, near=True, max_tiles=16, few=True), rest, 500),
]
