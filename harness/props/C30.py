import io

import dustmaker
from dustmaker import entity as E
from dustmaker.dfwriter import DFWriter
from hypothesis import strategies as st

from ..engine import Sub, check, same
from .. import fileview, gen
from ..model import BLANK_EDGE, DUSTBLOCK, ETYPES, FILTH, expand, mklevel, tileview

ID = "C30"
RULE = "the level has counted filth of at least two kinds, or filth that must not count (spikes, other layers)"

ENEMIES = sorted(e for e in ETYPES if FILTH[e])


def seg_of(x, y):
    return (x // 256, y // 256, x // 16 % 16, y // 16 % 16)


def expected(spec):
    """(region x, region y, segment x, segment y) -> [dust, enemies, dustblocks]"""
    out = {}

    def add(k, i, n):
        if n:
            out.setdefault(k, [0, 0, 0])[i] += n
    for layer, x, y, tile in spec["tiles"]:
        if layer == 19:
            add(seg_of(x, y), 0, sum(1 for e in tile[5] if e[4] and not e[5]))
            add(seg_of(x, y), 2, tile[2] in DUSTBLOCK and DUSTBLOCK[tile[2]] == tile[3])
    for _, x, y, ent in spec["ents"]:
        add(seg_of(int(x // 48), int(y // 48)), 1, FILTH.get(ent[0], 0))
    return out


def totals(dec):
    out = {}
    for reg in dec["regions"]:
        for seg in reg["segments"]:
            f = seg["filth"]
            k = (reg["x"], reg["y"], seg["x"], seg["y"])
            check(k not in out, "segment %r is written twice", k)
            out[k] = [f[0], f[1], f[3], f[2]]
    return out


def surfaces(lv):
    """segment -> solid and visible edges on the collision layer that are not spikes"""
    out = {}
    for (layer, x, y), tile in lv.tiles.items():
        if layer == 19:
            k = seg_of(x, y)
            out[k] = out.get(k, 0) + sum(1 for e in tileview(tile)[5] if e[0] and e[1] and not e[5])
    return out


def level(case, t):
    spec, custom, passes = case
    spec = expand(spec)
    lv = mklevel(spec)
    want = expected(spec)
    for n, (filth, x, y, wrap) in enumerate(custom):  # enemy classes of the user
        base = {"Enemy": E.Enemy, "EnemyBear": E.EnemyBear, "EnemyDoor": E.EnemyDoor}[wrap]
        body = {"TYPE_IDENTIFIER": "usr_enemy%d" % n}
        if filth is not None:
            body["FILTH"] = filth
        else:
            filth = {"Enemy": 1, "EnemyBear": 9, "EnemyDoor": 0}[wrap]
        cls = type("UserEnemy", (base,), body)
        lv.add_entity(x, y, cls(), next(i for i in range(3000, 9000) if i not in lv.entities and i not in lv.props))
        if filth:
            want.setdefault(seg_of(int(x // 48), int(y // 48)), [0, 0, 0])[1] += filth
    data = None
    for _ in range(passes + 1):
        data = dustmaker.write_level(lv)
        surface = surfaces(lv)
        got = totals(fileview.decode(data))
        missing = set(want) - set(got)
        check(not missing, "segments %r with filth %r are not in the file", sorted(missing), [want[k] for k in sorted(missing)])
        for k, v in got.items():
            w = want.get(k, [0, 0, 0])
            for i, name in enumerate(("filth edges", "enemy filth", "dustblocks")):
                check(v[i] == w[i], "segment %r stores %d %s, the level has %d", k, v[i], name, w[i])
            check(v[3] == surface.get(k, 0), "segment %r stores %d surface edges, the level has %d", k, v[3], surface.get(k, 0))
        lv = dustmaker.read_level(data)  # a level read back writes the same totals
    kinds = [sum(v[i] for v in want.values()) > 0 for i in range(3)]
    skipped = any(any(e[4] for e in ti[5]) and (l != 19 or any(e[4] and e[5] for e in ti[5])) for l, _, _, ti in spec["tiles"])
    t.nontrivial(sum(kinds) >= 2 or skipped)
    for i, name in enumerate(("filth", "enemies", "dustblocks")):
        if kinds[i]:
            t.label(name)
    t.label("%d segments" % min(len(want), 5))


def filthy(d):
    """tile biased to filth"""
    tile = gen.tile_of(d)
    edges = []
    for i, e in enumerate(tile[5]):
        b = d[9 + 9 * i + 7]
        if b & 3:
            e = e[:4] + (e[4] or 1 + b % 5, bool(b & 64 and b & 128)) + e[6:]
        edges.append(e)
    return tile[:5] + (tuple(edges),)


tile = st.one_of(gen.tile, st.binary(min_size=45, max_size=45).map(filthy), st.binary(min_size=45, max_size=45).map(filthy))
enemy = st.builds(lambda et, d: (et, ("d", ()), d[0] * 256, d[1] % 21, bool(d[2] & 1), bool(d[2] & 2), bool(d[2] & 4)),
                  st.one_of(st.sampled_from(ETYPES), st.sampled_from(ENEMIES), gen.etypes), st.binary(min_size=3, max_size=3))


@st.composite
def specs(draw):
    near = draw(st.booleans())
    l19 = st.sampled_from([19, 19, 19, 19, 18, 20, 0])
    ta = st.integers(-20, 20) if near else None
    return {
        "tiles": draw(gen.tiles(14, layer=l19, anchor=ta, tile_st=tile)),
        "props": draw(gen.props(2)) if draw(st.integers(0, 3)) == 0 else [],
        "ents": draw(gen.ents(8, enemy, anchor=st.integers(-900, 900) if near else None)),
        "btiles": draw(gen.tiles(3, layer=l19, lo=gen.BTLO, hi=gen.BTHI, anchor=st.integers(-3, 3), tile_st=tile)),
        "bprops": [], "vars": ("d", (("level_type", ("i", draw(gen.level_types))),)), "sshot": b"",
    }


@st.composite
def bulk_specs(draw):
    s = draw(specs())
    s["bulk"] = draw(st.lists(st.one_of(
        st.tuples(st.just("tiles"), st.sampled_from([19, 19, 19, 18]), st.integers(-20, 20), st.integers(-20, 20),
                  gen.size(1, 34, 17), gen.size(1, 34, 17), st.integers(0, 999)),
        st.tuples(st.just("filthy"), st.sampled_from([0, 0, -16, 16, 240, -256]), st.sampled_from([0, -16, 16, 256]),
                  st.sampled_from([0, 3, 3, 4, 4]), st.integers(0, 999)),
        st.tuples(st.just("ents"), gen.size(1, 400, 120), st.integers(-800, 800), st.integers(-800, 800), st.integers(0, 999))),
        min_size=1, max_size=2))
    return s


pos = st.one_of(st.integers(-1600, 1600).map(float), st.integers(-30, 30).map(lambda n: n * 768.0))
custom = st.lists(st.tuples(st.sampled_from([None, 0, 1, 2, 7, 40]), pos, pos, st.sampled_from(["Enemy", "EnemyBear", "EnemyDoor"])),
                  max_size=2).map(tuple)
SUBS = [
    Sub("levels", lambda: st.tuples(specs(), st.one_of(st.just(()), custom), st.integers(0, 1)), level, 4000),
    Sub("dense", lambda: st.tuples(bulk_specs(), st.just(()), st.integers(0, 1)), level, 240),
]
