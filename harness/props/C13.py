from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from .. import geometry as G
from ..model import mktile, tileview
from ..txmodel import matrix

ID = "C13"
RULE = "the map is not the identity and the tile is not a plain square without edge data"
ASSUMPTIONS = ["solid polygon and edges of each shape as pictured in the documentation (harness/geometry.py)"]


def tile(case, t):
    spec, steps = case
    tl = mktile(spec)
    other = mktile(spec)
    want = spec
    for gi, f, tx, ty in steps:
        g = G.D4[gi]
        tl.transform(matrix(g, tx, ty, f))
        want = G.tile_image(want, g)
        with observing("tile"):
            same(tileview(tl), want, "tile after %r (x%r)" % (g, f))
    same(tileview(other), spec, "an equal tile that was not transformed")
    check(len({id(e) for e in tl.edge_data}) == 4, "edges of the tile share data")
    t.nontrivial(any(s[0] for s in steps) and (spec[0] != 0 or any(e != G.BLANK_EDGE for e in spec[5])))
    t.label("shape%d" % spec[0])


def constants(case, t):
    """The matrices offered by the library are the documented maps."""
    spec, name, n = case
    tl = mktile(spec)
    if name == "rot":
        tl.transform(TxMatrix.ROTATE[n % 4])
        g = G.turns(n % 4)
    else:
        tl.transform(TxMatrix.HFLIP if name == "h" else TxMatrix.VFLIP)
        g = G.HF if name == "h" else G.VF
    with observing("tile"):
        same(tileview(tl), G.tile_image(spec, g), "tile after %s %d" % (name, n))
    t.nontrivial(g != G.ID)


def grid(case, t):
    """Every shape under every map."""
    spec = case
    for shape in range(21):
        s = (shape,) + spec[1:]
        for g in G.D4:
            tl = mktile(s)
            tl.transform(matrix(g))
            with observing("tile"):
                same(tileview(tl), G.tile_image(s, g), "shape %d after %r" % (shape, g))
    t.nontrivial(True)


scales = st.one_of(st.sampled_from([1, 1, 2, 3, 1.0, 0.5, 7]), gen.ints(1, 50), st.floats(0.1, 20))
steps = st.lists(st.tuples(st.integers(0, 7), scales, st.one_of(st.just(0), gen.ints(-5000, 5000)), st.one_of(st.just(0), st.floats(-999, 999))), min_size=1, max_size=3)
SUBS = [
    Sub("tiles", lambda: st.tuples(gen.tile, steps), tile, 20000),
    Sub("constants", lambda: st.tuples(gen.tile, st.sampled_from(["rot", "rot", "h", "v"]), st.integers(0, 3)), constants, 6000),
    Sub("all-shapes", lambda: gen.tile, grid, 700),
]
