from hypothesis import strategies as st

from ..engine import Sub, check
from .. import gen, txmodel
from .. import geometry as G
from ..model import levelview, mklevel, specview

ID = "C14"
RULE = "the map is not the identity and the level has content"
ASSUMPTIONS = ["translations exactly between two whole tiles may be rounded either way and are not generated"]


def untie(v):
    return v + 1 if txmodel.is_tie(v, 48) or txmodel.is_tie(v, 768) else v


def transform(case, t):
    spec, gi, tx, ty, how = case
    g = G.D4[gi]
    tx, ty = untie(tx), untie(ty)
    lv = mklevel(spec)
    if how == "translate":
        g = G.ID
        lv.translate(tx, ty)
    else:
        lv.transform(txmodel.matrix(g, tx, ty))
    txmodel.check_level(levelview(lv), specview(spec), g, 1, tx, ty)
    t.nontrivial((g != G.ID or tx or ty) and any(spec[k] for k in ("tiles", "props", "ents", "btiles", "bprops")))
    for k in ("tiles", "props", "ents", "btiles", "bprops"):
        if spec[k]:
            t.label(k)
    for _, _, _, e in spec["ents"]:
        t.label("e:" + e[0]) if e[0] in SPECIAL else None


SPECIAL = ("check_point", "level_end_prox", "kill_box", "AI_controller", "camera_node", "enemy_key")
special_ent = st.sampled_from(SPECIAL).flatmap(lambda et: st.builds(gen._ent, st.just(et), gen.typed_vars(et), st.binary(min_size=4, max_size=4)))
offs = st.one_of(st.just(0), st.integers(-40, 40).map(lambda n: n * 48), st.integers(-5, 5).map(lambda n: n * 768), gen.ints(-4000, 4000),
                 st.integers(-9000, 9000).map(lambda n: n / 8))


@st.composite
def special_levels(draw):
    spec = draw(gen.levels(typed_ents=True, near=True, max_tiles=2, max_props=1, max_ents=0, max_bprops=1))
    spec["ents"] = draw(gen.ents(3, special_ent, anchor=st.integers(-2000, 2000)))
    return spec


def cases(levels):
    return st.tuples(levels, st.integers(0, 7), offs, offs, st.sampled_from(["mat", "mat", "mat", "translate"]))


SUBS = [
    Sub("levels", lambda: cases(gen.levels(typed_ents=True, near=True, fractional=True, few=True)), transform, 2600),
    Sub("tiles", lambda: cases(gen.levels(typed_ents=True, near=True, max_tiles=25, max_props=0, max_ents=0)), transform, 1000),
    Sub("positional-entities", lambda: cases(special_levels()), transform, 2800),
    Sub("far", lambda: cases(gen.levels(typed_ents=True, max_tiles=5, max_props=3, max_ents=2, few=True)), transform, 800),
]
