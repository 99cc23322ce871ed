import dustmaker
from dustmaker import LevelParseException
from hypothesis import strategies as st

from ..engine import Sub, raises, same
from .. import encplan, gen
from ..model import expand, levelview

ID = "C03"
RULE = "the file has at least one region and departs from what the writer itself would produce"


def decode(case, t):
    spec, plan = case
    data, want, used = encplan.build(expand(spec), plan)
    got = levelview(dustmaker.read_level(data))
    same(got, want, "level read from a legal file")
    t.nontrivial(used["regions"] and plan != encplan.PLAIN)
    for k in ("old", "neg", "dup", "stray", "force"):
        if used[k]:
            t.label(k)
    if plan["ver"] == 43:
        t.label("level-version-43")


def versions(case, t):
    spec, plan, ver = case
    data, _, _ = encplan.build(spec, plan)
    data = data[:6] + ver.to_bytes(2, "little") + data[8:]
    raises(LevelParseException, "level version %d" % ver, dustmaker.read_level, data)
    t.nontrivial(True)


levels = gen.levels(fractional=True, few=True)
SUBS = [
    Sub("encodings", lambda: st.tuples(levels, encplan.plans), decode, 3000),
    Sub("props-and-entities", lambda: st.tuples(gen.levels(max_tiles=2, max_props=8, max_ents=8, fractional=True, var_depth=1),
                                                encplan.plans), decode, 1200),
    Sub("crowded", lambda: st.tuples(gen.crowded().map(encplan.fits), st.one_of(st.just(encplan.PLAIN), encplan.plans)), decode, 90, 500),
    Sub("versions", lambda: st.tuples(gen.levels(max_tiles=2, max_props=1, max_ents=1, var_depth=0), st.just(encplan.PLAIN),
                                      gen.ints(0, 42, (1, 40, 41, 42))), versions, 200),
]
