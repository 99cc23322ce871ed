from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, observing
from .. import gen, txmodel
from .. import geometry as G
from ..model import levelview, mklevel, specview
from .C14 import special_levels

ID = "C15"
RULE = "at least two steps that are not the identity (or one convenience call that is not) on a level with content"
ASSUMPTIONS = ["translations are whole tiles (of the backdrop when it has tiles)"]


def _unit(spec):
    return 768 if spec["btiles"] else 48


def _content(spec):
    return any(spec[k] for k in ("tiles", "props", "ents", "btiles", "bprops"))


def compose(case, t):
    spec, steps = case
    unit = _unit(spec)
    steps = [(G.D4[gi], tx * unit, ty * unit) for gi, tx, ty in steps]
    a, b, c = mklevel(spec), mklevel(spec), mklevel(spec)
    tot, ox, oy = G.ID, 0, 0
    prod = TxMatrix.IDENTITY
    for g, tx, ty in steps:
        a.transform(txmodel.matrix(g, tx, ty))
        tot = G.mul(g, tot)
        x, y = G.app(g, (ox, oy))
        ox, oy = x + tx, y + ty
        prod = txmodel.matrix(g, tx, ty) * prod
    b.transform(txmodel.matrix(tot, ox, oy))
    c.transform(prod)
    va = levelview(a)
    txmodel.check_level(va, levelview(b), G.ID, 1, 0, 0)
    txmodel.check_level(va, levelview(c), G.ID, 1, 0, 0)
    # and back, in one step
    inv = G.inverse(tot)
    x, y = G.app(inv, (ox, oy))
    a.transform(txmodel.matrix(inv, -x, -y))
    txmodel.check_level(levelview(a), specview(spec), G.ID, 1, 0, 0)
    t.nontrivial(_content(spec) and sum(s != (G.ID, 0, 0) for s in steps) >= 2)
    t.label("steps%d" % len(steps))


def undo(case, t):
    """A sequence undone step by step in reverse order restores the level."""
    spec, steps = case
    unit = _unit(spec)
    lv = mklevel(spec)
    log = []
    for gi, tx, ty in steps:
        g, tx, ty = G.D4[gi], tx * unit, ty * unit
        lv.transform(txmodel.matrix(g, tx, ty))
        log.append((g, tx, ty))
    for g, tx, ty in reversed(log):
        inv = G.inverse(g)
        x, y = G.app(inv, (tx, ty))
        lv.transform(txmodel.matrix(inv, -x, -y))
    txmodel.check_level(levelview(lv), specview(spec), G.ID, 1, 0, 0)
    t.nontrivial(_content(spec) and sum(s != (G.ID, 0, 0) for s in log) >= 2)


def convenience(case, t):
    spec, calls = case
    unit = _unit(spec)
    lv = mklevel(spec)
    tot, ox, oy = G.ID, 0, 0
    nt = 0
    for name, n, m in calls:
        g, tx, ty = G.ID, 0, 0
        if name == "rotate":
            r = lv.rotate(n)
            g = G.turns(n)
        elif name == "rotate1":
            r = lv.rotate()
            g = G.CW
        elif name == "h":
            r = lv.flip_horizontal()
            g = G.HF
        elif name == "v":
            r = lv.flip_vertical()
            g = G.VF
        else:
            tx, ty = n * unit, m * unit
            r = lv.translate(tx, ty)
        check(r is None, "%s returned %r", name, r)
        tot = G.mul(g, tot)
        x, y = G.app(g, (ox, oy))
        ox, oy = x + tx, y + ty
        nt += (g, tx, ty) != (G.ID, 0, 0)
        t.label(name)
    txmodel.check_level(levelview(lv), specview(spec), tot, 1, ox, oy)
    t.nontrivial(_content(spec) and nt >= 1)


# 16 backdrop tiles per tile: up to about 2**27 pixels either way
far = st.integers(0, 7).flatmap(lambda n: st.integers(-6, 6) if n else st.one_of(gen.ints(-170000, 170000), st.sampled_from([22000, -22000, 43691, -43691, 87382, 170000])))
step = st.tuples(st.integers(0, 7), far, far)
turns = st.one_of(st.integers(-9, 9), gen.ints(-1000, 1000))
call = st.one_of(
    st.tuples(st.just("rotate"), turns, st.just(0)),
    st.tuples(st.sampled_from(["rotate1", "h", "v"]), st.just(0), st.just(0)),
    st.tuples(st.just("translate"), far, far),
)


def levels():
    return st.one_of(gen.levels(typed_ents=True, near=True, max_tiles=8, max_props=3, max_ents=3, few=True), special_levels())


SUBS = [
    Sub("compose", lambda: st.tuples(levels(), st.lists(step, min_size=1, max_size=5)), compose, 2400),
    Sub("undo", lambda: st.tuples(levels(), st.lists(step, min_size=1, max_size=4)), undo, 1200),
    Sub("convenience", lambda: st.tuples(levels(), st.lists(call, min_size=1, max_size=4)), convenience, 2000),
]
