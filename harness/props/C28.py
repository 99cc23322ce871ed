import copy
import io
from enum import IntEnum

import dustmaker
from dustmaker import variable as V
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from hypothesis import strategies as st

from ..engine import Sub, check
from .. import gen
from ..model import VCLS, mkedge, mktile, mkvar, quant, tileview, unordered

ID = "C28"
RULE = "the pair is equal but built differently, or differs in exactly one attribute"
ASSUMPTIONS = ["no NaN values"]


def laws(a, b, want, what):
    check((a == b) is want, "%s: == is %r, expected %r", what, a == b, want)
    check((b == a) is want, "%s: == is %r the other way round, expected %r", what, b == a, want)
    check((a != b) is not want, "%s: != is %r, expected %r", what, a != b, not want)
    check(a == a and not a != a, "%s: not equal to itself", what)
    ha, hb = hash(a), hash(b)
    check(hash(a) == ha and type(ha) is int, "%s: hash is not stable", what)
    if want:
        check(ha == hb, "%s: equal objects have different hashes", what)
    check(len({a, b}) == (1 if want else 2), "%s: a set of both has %d members", what, len({a, b}))
    check((b in {a: 1}) is want, "%s: dictionary lookup finds %r, expected %r", what, b in {a: 1}, want)
    check((b in [a]) is want, "%s: list membership is %r, expected %r", what, b in [a], want)


def strangers(a, others, what):
    for o in others:
        check((a == o) is False and (o == a) is False, "%s compares equal to %r", what, o)
        check((a != o) is True, "%s: != %r is not true", what, o)


# ---- tiles ------------------------------------------------------------------------------------------


def build_tile(s, how):
    if how == 0:
        return mktile(s)
    if how == 1:
        t = Tile()
        t.sprite_palette, t.sprite_tile = s[4], s[3]
        t.sprite_set = TileSpriteSet(s[2])
        t.tile_flags = s[1]
        t.shape = TileShape(s[0])
        for i in (3, 1, 0, 2):
            e = t.edge_data[i]
            x = s[5][i]
            e.solid, e.visible, e.caps, e.angles = x[:4]
            e.filth_sprite_set, e.filth_spike, e.filth_caps, e.filth_angles = TileSpriteSet(x[4]), x[5], x[6], x[7]
        return t
    if how == 2:
        return copy.deepcopy(mktile(s))
    if how == 3:
        t = Tile(TileShape(s[0]), tile_flags=s[1])
        t.set_sprite_tuple((TileSpriteSet(s[2]), s[3], s[4]))
        t.edge_data = [mkedge(e) for e in s[5]]
        return t
    if how == 4:  # a mutated, then restored tile
        t = mktile(s)
        hash(t)
        keep = t.sprite_palette, t.edge_data[2]
        t.sprite_palette, t.edge_data[2] = 99, mkedge(s[5][0])
        hash(t)
        t.sprite_palette, t.edge_data[2] = keep
        return t
    lv = Level()  # through a file, when it can hold this tile
    lv.tiles[(19, 3, -4)] = mktile(s)
    t = dustmaker.read_level(dustmaker.write_level(lv)).tiles[(19, 3, -4)]
    return t if tileview(t) == s else mktile(s)


ATTRS = [("shape", 0), ("tile_flags", 1), ("sprite_set", 2), ("sprite_tile", 3), ("sprite_palette", 4)]
EDGE = ["solid", "visible", "caps.0", "caps.1", "angles.0", "angles.1", "filth_sprite_set", "filth_spike", "filth_caps.0",
        "filth_caps.1", "filth_angles.0", "filth_angles.1"]
EIDX = {"solid": 0, "visible": 1, "caps": 2, "angles": 3, "filth_sprite_set": 4, "filth_spike": 5, "filth_caps": 6,
        "filth_angles": 7}
ALL = [a for a, _ in ATTRS] + ["%d.%s" % (s, e) for s in range(4) for e in EDGE]


def change(s, attr, k):
    """A spec differing from s in exactly the attribute attr."""
    s = list(s)
    if attr[0] not in "0123":
        i = dict(ATTRS)[attr]
        n = {"shape": 21, "tile_flags": 8, "sprite_set": 8, "sprite_tile": 256, "sprite_palette": 16}[attr]
        s[i] = (s[i] + 1 + k % (n - 1)) % n
        return tuple(s)
    side, rest = int(attr[0]), attr[2:].split(".")
    e = list(s[5][side])
    i = EIDX[rest[0]]
    if rest[0] in ("solid", "visible", "filth_spike"):
        e[i] = not e[i]
    elif rest[0] == "filth_sprite_set":
        e[i] = (e[i] + 1 + k % 7) % 8
    else:
        p = list(e[i])
        j = int(rest[1])
        p[j] = not p[j] if "caps" in rest[0] else (p[j] + 128 + 1 + k % 255) % 256 - 128
        e[i] = tuple(p)
    s[5] = s[5][:side] + (tuple(e),) + s[5][side + 1:]
    return tuple(s)


def tiles(case, t):
    s, how1, how2, attr, k, other = case
    what = "tiles"
    if attr is None:
        s2 = s if other is None else other
        t.label("independent" if other is not None else "equal")
    else:
        s2 = change(s, attr, k)
        what = "tiles differing only in " + attr
        t.label("differ in " + attr.split(".")[-2 if attr[-2:] in (".0", ".1") else -1])
    a, b = build_tile(s, how1), build_tile(s2, how2)
    laws(a, b, s == s2, what)
    strangers(a, [None, 0, "tile", s, a.edge_data[0], object(), V.VariableInt(0)], "a tile")
    t.nontrivial(other is None)


tile_cases = st.one_of(
    st.tuples(gen.tile, st.integers(0, 5), st.integers(0, 5), st.sampled_from(ALL), st.integers(0, 300), st.none()),
    st.tuples(gen.tile, st.integers(0, 5), st.integers(0, 5), st.none(), st.just(0), st.one_of(st.none(), st.none(), gen.tile)),
)

# ---- variables ----------------------------------------------------------------------------------------


class Small(IntEnum):
    ZERO = 0
    ONE = 1
    TWO = 2
    SIX = 6


def build_var(v, how):
    t = v[0]
    if how == 0:
        return mkvar(v)
    if how == 1:  # filled in afterwards, in another order
        if t == "d":
            r = V.VariableStruct()
            for k, x in reversed(v[1]):
                r.value[k] = build_var(x, how)
            return r
        if t == "a":
            r = V.VariableArray(VCLS[v[1]])
            for x in v[2]:
                r.append(build_var(x, how).value)
            return r
        r = VCLS[t]()
        r.value = v[1]
        return r
    if how == 2:
        return copy.deepcopy(mkvar(v))
    if how == 3:  # integers as enumeration members
        if t == "d":
            return V.VariableStruct({k: build_var(x, how) for k, x in sorted(v[1])})
        if t == "a":
            return V.VariableArray(VCLS[v[1]], [build_var(x, how) for x in v[2]])
        return VCLS[t](Small(v[1]) if t in "iu" and v[1] in (0, 1, 2, 6) else v[1])
    if how == 4:  # hashed, changed and restored
        r = mkvar(v)
        hash(r)
        if t == "d":
            r.value["zzz"] = V.VariableInt(1)
            hash(r)
            del r.value["zzz"]
        elif t == "a" and v[2]:
            r.reverse()
            hash(r)
            r.reverse()
        return r
    if unordered(quant(v)) != unordered(v):
        return mkvar(v)
    s = io.BytesIO()
    with DFWriter(s, noclose=True) as w:
        w.write_var_file(b"DF_T", {"a": mkvar(v)})
    s.seek(0)
    return DFReader(s).read_var_file(b"DF_T")["a"]


def retag(v, tag):
    """The same Python value with another variable type, or None."""
    if v[0] == "b" and tag in "iu":
        return (tag, int(v[1]))
    if v[0] == "b" and tag == "f":
        return (tag, float(v[1]))
    if v[0] in "iu" and tag in "iu":
        return (tag, v[1]) if 0 <= v[1] < 2**31 else None
    if v[0] in "iu" and tag == "f":
        return (tag, float(v[1]))
    return None


@st.composite
def mutated(draw, v):
    """v changed in one place, at any depth."""
    t = v[0]
    if t == "d" and v[1] and draw(st.integers(0, 2)):
        i = draw(st.integers(0, len(v[1]) - 1))
        k, x = v[1][i]
        how = draw(st.integers(0, 3))
        if how == 0:
            return ("d", v[1][:i] + v[1][i + 1:])
        if how == 1:
            k2 = draw(gen.str6)
            return ("d", v[1][:i] + ((k2, x),) + v[1][i + 1:]) if k2 not in dict(v[1]) else v
        return ("d", v[1][:i] + ((k, draw(mutated(x))),) + v[1][i + 1:])
    if t == "d":
        k2 = draw(gen.str6)
        return ("d", v[1] + ((k2, draw(gen.leaf)),)) if k2 not in dict(v[1]) else ("d", ())
    if t == "a":
        if not v[2]:
            return ("a", draw(st.sampled_from("biufsvda")), ())
        how = draw(st.integers(0, 4))
        i = draw(st.integers(0, len(v[2]) - 1))
        if how == 0:
            return ("a", v[1], v[2][:i] + v[2][i + 1:])
        if how == 1:
            return ("a", v[1], v[2][:i] + (v[2][i],) + v[2][i:])
        if how == 2 and v[1] in "biu":
            tag = draw(st.sampled_from("iuf"))
            xs = tuple(retag(x, tag) for x in v[2])
            return ("a", tag, xs) if None not in xs else ("a", v[1], v[2][::-1])
        if how == 3:
            return ("a", v[1], v[2][i:] + v[2][:i])
        while True:
            x = draw(mutated(v[2][i]))
            if x[0] == v[1]:
                return ("a", v[1], v[2][:i] + (x,) + v[2][i + 1:])
            if v[1] not in "da":
                return ("a", v[1], v[2][:i] + (draw(gen.LEAF[v[1]]),) + v[2][i + 1:])
    if t in "biu" and draw(st.booleans()):
        r = retag(v, draw(st.sampled_from([x for x in "iuf" if x != t])))
        if r is not None:
            return r
    if t == "b":
        return ("b", not v[1])
    if t == "i":
        return ("i", v[1] + 1 if v[1] < 2**31 - 1 else v[1] - 1)
    if t == "u":
        return ("u", v[1] ^ 1)
    if t == "s":
        return ("s", draw(st.sampled_from([v[1] + b"\x00", v[1][:-1], v[1].swapcase() if v[1].swapcase() != v[1] else v[1] + b"a"])))
    if t == "v":
        return ("v", draw(st.sampled_from([(v[1][1], v[1][0]), (v[1][0] + 1.0, v[1][1]), (v[1][0], v[1][1] - 0.5)])))
    return ("f", draw(st.sampled_from([v[1] + 1.0, -v[1], v[1] + 2.0**-30])))


def variables(case, t):
    v1, v2, how1, how2 = case
    a, b = build_var(v1, how1), build_var(v2, how2)
    want = unordered(v1) == unordered(v2)
    laws(a, b, want, "variables of types %s and %s" % (v1[0], v2[0]))
    o = [None, object(), v1, Tile()]
    if v1[0] != "a":
        o.append(copy.copy(a.value))
    strangers(a, o, "a %s variable" % v1[0])
    t.nontrivial(not want or how1 != how2)
    t.label("equal" if want else "same type" if v1[0] == v2[0] else "other type")


small = st.one_of(st.integers(0, 3).map(lambda n: ("i", n)), st.integers(0, 3).map(lambda n: ("u", n)),
                  st.booleans().map(lambda b: ("b", b)), st.sampled_from([("a", x, ()) for x in "biufsvda"] + [("d", ())]),
                  st.sampled_from([("s", b""), ("s", b"a"), ("f", 0.0), ("f", 1.0), ("v", (0.0, 1.0))]))
base = st.one_of(small, gen.leaf, gen.struct(2), gen.array(2), gen.struct(3), gen.array(3))
how = st.integers(0, 5)
var_cases = st.one_of(
    base.flatmap(lambda v: st.tuples(st.just(v), mutated(v), how, how)),
    base.flatmap(lambda v: st.tuples(st.just(v), st.just(v), how, how)),
    st.tuples(small, small, how, how),
)

SUBS = [Sub("tiles", lambda: tile_cases, tiles, 12000), Sub("variables", lambda: var_cases, variables, 16000)]
