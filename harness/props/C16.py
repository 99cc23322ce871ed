from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import dictionary as D
from .. import gen, txmodel
from .. import geometry as G
from ..model import levelview, mklevel, mktile, specview, tileview
from .C14 import special_levels

ID = "C16"
RULE = "factor at least 2 and a tile with edge data, or a level with content"
ASSUMPTIONS = ["translations exactly between two whole tiles may be rounded either way and are not generated",
               "tiles carry no data on edges their shape does not have",
               "the extra matrix is applied before the enlargement, as Level.upscale documents by passing it to transform"]


def real_edges(t):
    return t[:5] + (tuple(e if s in G.EDGES[t[0]] else G.BLANK_EDGE for s, e in enumerate(t[5])),)


def tile(case, t):
    spec, f = case
    spec = real_edges(spec)
    tl = mktile(spec)
    got = list(tl.upscale(f))
    with observing("upscaled tiles"):
        keys = [(dx, dy) for dx, dy, _ in got]
        check(len(set(keys)) == len(keys), "two pieces at the same place: %r", keys)
        check(all(type(k) is int for p in keys for k in p), "piece positions %r", keys)
        same({(dx, dy): tileview(n) for dx, dy, n in got}, G.tile_enlarged(spec, f), "pieces of shape %d x%d" % (spec[0], f))
        same(tileview(tl), spec, "the tile that was upscaled")
        objs = [e for _, _, n in got for e in n.edge_data] + list(tl.edge_data)
        check(len({id(e) for e in objs}) == len(objs), "pieces share edge data")
    t.nontrivial(f >= 2 and any(e != G.BLANK_EDGE for e in spec[5]))
    t.label("shape%d" % spec[0])
    t.label("factor%d" % f)


def all_shapes(case, t):
    spec, f = case
    for shape in range(21):
        s = real_edges((shape,) + spec[1:])
        tl = mktile(s)
        with observing("upscaled tiles"):
            same({(dx, dy): tileview(n) for dx, dy, n in tl.upscale(f)}, G.tile_enlarged(s, f), "pieces of shape %d x%d" % (shape, f))
    t.nontrivial(f >= 2)


def biggest(v):
    """Largest integer of a variable tree."""
    if v[0] in "iu" and len(v) == 2:
        return abs(v[1])
    if v[0] == "d":
        return max([biggest(x) for _, x in v[1]], default=0)
    if v[0] == "a":
        return max([biggest(x) for x in v[2]], default=0)
    return 0


def level(case, t):
    spec, f, mat = case
    if f * max([biggest(e[3][1]) for e in spec["ents"]], default=0) >= 2**31:
        return  # an enlarged size does not fit its variable
    lv = mklevel(spec)
    if mat is None:
        g, tx, ty = G.ID, 0, 0
        lv.upscale(f)
    else:
        gi, tx, ty = mat
        g = G.D4[gi]
        while any(txmodel.is_tie(f * tx, s) for s in (48, 768)):
            tx += 1
        while any(txmodel.is_tie(f * ty, s) for s in (48, 768)):
            ty += 1
        lv.upscale(f, mat=txmodel.matrix(g, tx, ty))
    txmodel.check_level(levelview(lv), specview(spec), g, f, f * tx, f * ty)
    n = sum(len(spec[k]) for k in ("tiles", "props", "ents", "btiles", "bprops"))
    t.nontrivial(f >= 2 and n)
    t.label("factor%d" % f)
    t.label("plain" if mat is None else "with matrix")
    if spec["btiles"]:
        t.label("backdrop tiles")


factors = st.one_of(st.integers(1, 5), st.integers(2, 12), gen.size(1, 12, 4))
offs = st.one_of(st.just(0), st.integers(-20, 20).map(lambda n: n * 48), st.integers(-4, 4).map(lambda n: n * 768), gen.ints(-3000, 3000))
mats = st.one_of(st.none(), st.tuples(st.integers(0, 7), st.just(0), st.just(0)), st.tuples(st.integers(0, 7), offs, offs))
SUBS = [
    Sub("tiles", lambda: st.tuples(gen.tile, factors), tile, 5000),
    Sub("all-shapes", lambda: st.tuples(gen.tile, st.integers(1, 7)), all_shapes, 100),
    Sub("large-factors", lambda: st.tuples(gen.tile, st.one_of(st.sampled_from([15, 16, 17, 24, 25, 31, 32, 33, 48, 64, 65]), st.integers(10, 70))), tile, 120),
    Sub("levels", lambda: st.tuples(gen.levels(typed_ents=True, near=True, max_tiles=5, max_props=3, max_ents=2, few=True), st.integers(1, 5), mats), level, 1500),
    Sub("levels-large-factors", lambda: st.tuples(gen.levels(typed_ents=True, near=True, max_tiles=2, max_props=2, max_ents=2, few=True),
                                                  st.one_of(st.sampled_from([15, 16, 17, 31, 32, 33]), st.integers(6, 40)), mats), level, 40),
    Sub("positional-entities", lambda: st.tuples(special_levels(), st.integers(1, 9), mats), level, 1200),
]
