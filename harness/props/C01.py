import math

import dustmaker
from dustmaker.level import Level, LevelType
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from ..model import expand, levelview, lossy, mklevel, mkprop, specview

ID = "C01"
RULE = "the level has content of at least two kinds (tiles, props, entities, backdrop, variables)"


def kinds(spec):
    return sum(1 for k in ("tiles", "props", "ents", "btiles", "bprops") if spec[k]) + bool(spec["vars"][1])


def roundtrip(case, t):
    spec = expand(case)
    lv = mklevel(spec)
    want = lossy(specview(spec))
    data = dustmaker.write_level(lv)
    check(isinstance(data, bytes), "write_level returned %r", type(data))
    got = levelview(dustmaker.read_level(data))
    same(got, want, "level after write and read")
    t.nontrivial(kinds(spec) >= 2)
    for k in ("tiles", "props", "ents", "btiles", "bprops"):
        if spec[k]:
            t.label(k)
    if len({(x // 256, y // 256) for _, x, y, _ in spec["tiles"]}) > 1:
        t.label("several-regions")
    if len(spec["tiles"]) > 200:
        t.label(">200 tiles")
    if len(spec["props"]) > 255:
        t.label(">255 props")
    if max(len(spec[k]) for k in ("props", "ents", "bprops")) > 4095:
        t.label(">4095 of a kind")


def scales(case, t):
    """Scales between the steps of the format come back as the nearest step."""
    lv = Level()
    lv.level_type = LevelType.DUSTMOD
    for i, (e, bd) in enumerate(case):
        p = mkprop((1, 2, False, True, 32, 3, 4, 5, 6))
        p.scale = 50.0 ** ((e - 32) / 24.0)
        (lv.backdrop if bd else lv).add_prop(17, 10.0 * i, -5.0, p, i + 1)
    got = dustmaker.read_level(dustmaker.write_level(lv))
    with observing("props"):
        for i, (e, bd) in enumerate(case):
            s = (got.backdrop if bd else got).props[i + 1][3].scale
            check(s > 0, "scale %r", s)
            k = math.log(s) / math.log(50.0) * 24.0 + 32
            check(abs(k - round(k)) < 1e-6, "scale %r is not a step of the format", s)
            check(abs(k - e) <= 0.5 + 1e-6, "scale step %r read back as step %r", e, k)
    t.nontrivial(any(e != int(e) for e, _ in case))


SUBS = [
    Sub("level", lambda: gen.levels(fractional=True, few=True), roundtrip, 2600),
    Sub("tiles", lambda: gen.levels(max_tiles=30, max_props=0, max_ents=0, max_bprops=0, var_depth=0), roundtrip, 1000),
    Sub("entities", lambda: gen.levels(max_tiles=1, max_props=1, max_ents=12, var_depth=1), roundtrip, 1000),
    Sub("scales", lambda: st.lists(st.tuples(st.one_of(st.floats(-0.49, 55.49), st.integers(0, 54).flatmap(
        lambda k: st.floats(k + 0.4, k + 0.6))), st.booleans()), min_size=1, max_size=8), scales, 800),
    Sub("bulk", lambda: gen.levels(max_tiles=3, bulk=True), roundtrip, 110),
    Sub("crowded", gen.crowded, roundtrip, 130, 600),
]
