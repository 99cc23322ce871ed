import io

import dustmaker
from dustmaker import variable as V
from dustmaker.bitio import BitIOWriter
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.exceptions import LevelParseException
from dustmaker.level import Level
from dustmaker.replay import Character, PlayerData, Replay
from dustmaker.tile import Tile, TileSpriteSet
from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, raises, same
from .. import encplan, gen
from .. import refcodec as R
from ..model import DUSTBLOCK, VCLS, mkvar, mkvars, varsview, vview

ID = "C07"
RULE = "the value is invalid, or the nearest valid neighbour of an invalid one"


# ---- 6-bit strings -----------------------------------------------------------------------------

def str6(case, t):
    s, where = case
    bad = len(s) > 63 or any(c not in R.CODE6 for c in s)

    def use():
        w = DFWriter(io.BytesIO())
        if where == "direct":
            w.write_6bit_str(s)
        elif where == "key":
            w.write_variable(V.VariableStruct({s: V.VariableInt(1)}))
        elif where == "strkey":
            w.write_variable(V.VariableStruct({s: V.VariableString(b"x")}))
        elif where == "file":
            w.write_var_file(b"DF_STA", {"ok": V.VariableStruct({s: V.VariableBool(True)})})
        else:
            lv = Level()
            e = Entity({})
            e.etype = s
            lv.add_entity(0, 0, e)
            w.write_level(lv)
        w.flush()
        return w.data.getvalue()
    if bad:
        raises(ValueError, "6-bit string %r (%s)" % (s, where), use)
    else:
        use()
    t.label("bad" if bad else "good")
    t.nontrivial(bad or len(s) >= 60)


bad_char = st.one_of(st.sampled_from(list(" -.,@[`|}~^/:\n\x00é{}?!+") + ["\u0100", "\ud7ff", "\uff10", "²", "ª", "１", "Ａ"]), st.characters(codec="utf-8"))
strs = st.one_of(
    st.text(R.ALPHA6, min_size=60, max_size=70), st.text(R.ALPHA6, max_size=20),
    st.builds(lambda a, c, b: a + c + b, st.text(R.ALPHA6, max_size=6), bad_char, st.text(R.ALPHA6, max_size=6)),
    st.text(max_size=8), st.integers(60, 130).map(lambda n: "k" * n))

# ---- sizes -------------------------------------------------------------------------------------


def strings(case, t):
    n, off = case
    w = DFWriter(io.BytesIO())
    if off:
        w.write(off, 1)
    v = V.VariableString(bytes(n))
    if n > 65535:
        raises(ValueError, "standalone string of %d bytes" % n, w.write_variable, v)
        w.flush()
        check(len(w.data.getvalue()) <= 3, "bytes were written for a refused string")
    else:
        w.write_variable(v)
    t.nontrivial(n >= 65530)


def arrays(case, t):
    kind, n, conts, nested = case
    if kind == "S":  # few enormous strings; only the refused case, the others would write gigabytes
        k = (7, 10, 40, 100)[conts]
        long = V.VariableString(bytes(65535 * k))
        elems = [long] * (n // (k + 1) + 1)
        arr = V.VariableArray(V.VariableString, elems)
        count = len(elems) * (k + 1)
        assert count > 65535 or n < 65535
        if count <= 65535:
            return
    elif kind == "b":
        elems = [V.VariableBool(True)] * n
        arr = V.VariableArray(V.VariableBool, elems)
        count = n
    else:
        long = V.VariableString(bytes(65535))
        vlong = V.VariableString(bytes(131071))
        elems = ([long, vlong] * conts)[:conts]
        extra = sum(len(e.value) // 65535 for e in elems)
        elems = elems + [V.VariableString(b"")] * (n - extra - len(elems))
        arr = V.VariableArray(V.VariableString, elems)
        count = len(elems) + extra
    w = DFWriter(io.BytesIO())
    v = V.VariableStruct({"x": arr}) if nested else arr
    if count > 65535:
        raises(ValueError, "array of %d stored elements" % count, w.write_variable, v)
    else:
        w.write_variable(v)
    t.label("over" if count > 65535 else "within")
    t.nontrivial(abs(count - 65535) < 10)


# ---- variable values -----------------------------------------------------------------------------

class Odd:
    pass


ODD = {"none": None, "obj": Odd(), "str": "text", "list": [1], "dict": {}, "bytearray": bytearray(b"x"), "set": set(), "complex": 1j}


def valid_value(tag, v):
    if tag == "b":
        return isinstance(v, bool)
    if tag == "i":
        return isinstance(v, int) and -(2**31) <= v < 2**31
    if tag == "u":
        return isinstance(v, int) and 0 <= v < 2**32
    if tag == "f":
        return isinstance(v, float)
    if tag == "s":
        return isinstance(v, bytes)
    if tag == "v":
        return isinstance(v, tuple) and len(v) == 2 and all(isinstance(c, float) for c in v)


def values(case, t):
    tag, val, how = case
    if isinstance(val, tuple) and len(val) == 2 and val[0] == "odd":
        val = ODD[val[1]]
    if isinstance(val, bool) and tag in "iu":
        return  # bool is an int in Python; not claimed either way
    ok = valid_value(tag, val)
    cls = VCLS[tag]
    if how == "new":
        if ok:
            same(cls(val).value, val, "value")
        else:
            raises(AssertionError, "%s(%r)" % (cls.__name__, val), cls, val)
    else:
        var = cls()
        var.value = val
        target = var
        if how in ("array", "array2"):
            var.value = cls().value
            arr = V.VariableArray(cls, [cls(), var] if how == "array2" else [var])
            var.value = val
            target = arr
        elif how in ("struct", "deep"):
            var.value = cls().value
            target = V.VariableStruct({"a": cls(), "k": var, "z": V.VariableInt(3)})
            if how == "deep":
                target = V.VariableArray(V.VariableStruct, [V.VariableStruct(), target])
            var.value = val
        if ok:
            target.assert_types()
        else:
            raises(ValueError, "assert_types with %s value %r (%s)" % (tag, val, how), target.assert_types)
            if how != "set":
                raises(AssertionError, "container of a %s holding %r" % (tag, val), V.VariableStruct, {"q": target})
    t.label("ok" if ok else "bad")
    t.nontrivial(True)


def containers(case, t):
    kind, tag, other, many, at = case
    cls, oc = VCLS[tag], VCLS[other]
    mk = lambda c: V.VariableArray(V.VariableInt) if c is V.VariableArray else c()
    good = tag == other
    if kind == "array-elem":
        elems = [mk(cls) for _ in range(many)]
        elems.insert(at % (many + 1), mk(oc))
        if good:
            same(len(V.VariableArray(cls, elems)), many + 1, "length")
        else:
            raises(AssertionError, "array of %s given a %s" % (tag, other), V.VariableArray, cls, elems)
    elif kind == "array-raw":
        if other in "bi" and tag in "bi":
            return
        raises(AssertionError, "array given raw values", V.VariableArray, cls, [mk(oc).value])
    elif kind == "array-type":
        raises(AssertionError, "array of a non-variable type", V.VariableArray,
               [int, str, None, 5, bytes, dict, "x", float][(ord(tag) + ord(other)) % 8])
    elif kind == "struct-key":
        key = [1, b"k", None, ("a",), 2.5][(ord(tag) + ord(other)) % 5]
        raises(AssertionError, "struct with key %r" % (key,), V.VariableStruct, dict([("k%d" % i, mk(oc)) for i in range(many)] + [(key, mk(cls))]))
    elif kind == "struct-val":
        raises(AssertionError, "struct of raw values", V.VariableStruct, dict([("k%d" % i, mk(cls)) for i in range(many)] + [("b", mk(oc).value)]))
    elif kind == "assign":
        arr = V.VariableArray(cls, [mk(cls) for _ in range(many)])
        arr.value[1].insert(at % (many + 1), mk(oc))
        if good:
            arr.assert_types()
        else:
            raises(ValueError, "assert_types of a mixed array", arr.assert_types)
    t.nontrivial(True)


vec_part = st.one_of(st.floats(0, 1), st.floats(0, 1), st.none(), st.booleans(), st.integers(0, 9), st.text(max_size=2), st.just(b"1"), st.just(1j),
                     st.just((0.5,)), st.just([1.0]))
vals = st.one_of(
    gen.ints(-(2**33), 2**33, (2**31, -(2**31) - 1, 2**31 - 1, -(2**31), 2**32, 2**32 - 1, -1)), st.booleans(), st.floats(allow_nan=False),
    gen.byte_strings(6), st.tuples(st.floats(0, 1), st.floats(0, 1)), st.tuples(st.floats(0, 1), st.integers(0, 9)), st.tuples(st.integers(0, 1), st.floats(0, 1)),
    st.tuples(st.floats(0, 1)), st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(0, 1)), st.just(()), st.lists(st.floats(0, 1), max_size=2),
    st.tuples(st.just("odd"), st.sampled_from(sorted(ODD))),
    st.tuples(vec_part, vec_part), st.lists(vec_part, max_size=3).map(tuple))

# ---- replays ------------------------------------------------------------------------------------


def replay(case, t):
    ver, nplayers, user, kind = case
    if kind == "write":
        rep = Replay(version=ver, username=user, level=b"lvl", frames=3, players=[PlayerData(Character(i % 8)) for i in range(nplayers)])
        w = DFWriter(io.BytesIO())
        ok = ver in (1, 3, 4) and (ver != 1 or nplayers == 1)
        if ok:
            w.write_replay(rep)
        else:
            raises(LevelParseException, "replay version %r with %d players" % (ver, nplayers), w.write_replay, rep)
    else:
        data = R.encode_replay({"version": 4, "username": user or None, "level": b"lvl", "frames": 3,
                                "players": [(1, {})] * max(1, nplayers), "entities": []})
        i = data.rindex(b"DF_RPL4") + 6
        data = data[:i] + bytes([(48 + ver) & 255]) + data[i + 1:]
        r = DFReader(io.BytesIO(data))
        ok = ver == 4
        if ver in (1, 3):
            return
        if ver == 2 and not user:
            raises(Exception, "replay with a dangling username header", r.read_replay)
        elif ok:
            same(r.read_replay().version, 4, "version")
        else:
            raises(LevelParseException, "reading replay version %d" % ver, r.read_replay)
    t.label("ok" if ok else "bad")
    t.nontrivial(True)


# ---- levels and headers --------------------------------------------------------------------------

def regions(case, t):
    spec, delta, chunked, what = case
    data, _, used = encplan.build(spec, encplan.PLAIN)
    r = DFReader(io.BytesIO(data))
    lv, offs = r.read_level_ex()
    region = r.read_bytes(offs[-1])
    want = list(offs)
    n = len(region)
    if what == "data":
        region = region[:max(0, n + delta)] if delta <= 0 else region + bytes(delta)
        bad = len(region) != n
    else:
        want[-1] = max(0, n + delta)
        bad = want[-1] != n
    w = DFWriter(io.BytesIO())
    rd = [region[:n // 2], region[n // 2:]] if chunked else region
    if bad:
        raises(LevelParseException, "region data of %d bytes announced as %d" % (len(region), want[-1]), w.write_level_ex, lv, want, rd)
    else:
        w.write_level_ex(lv, want, rd)
    t.label("bad" if bad else "good")
    t.nontrivial(abs(delta) <= 2)


def headers(case, t):
    kind, hdr, got = case
    if kind == "level":
        good = R.encode_level({"vars": ("d", ()), "sshot": b"", "regions": [], "next_id": 101})
        if got == b"DF_LVL":
            dustmaker.read_level(good)
        else:
            raises(LevelParseException, "level header %r" % got, dustmaker.read_level, got + good[6:])
            if got != b"DF_MTD":
                raises(LevelParseException, "level metadata header %r" % got, dustmaker.read_level, good[:16] + got + good[22:])
            raises(LevelParseException, "level header %r" % got, DFReader(io.BytesIO(got + good[6:])).read_level_ex)
    elif kind == "var":
        data = got + R.encode_var_file(b"", ("d", (("a", ("i", 3)),)))
        r = DFReader(io.BytesIO(data))
        if got[:len(hdr)] == hdr:
            return
        raises(LevelParseException, "variable file header %r, expected %r" % (got, hdr), r.read_var_file, hdr)
    elif kind == "expect":
        r = DFReader(io.BytesIO(got))
        if got[:len(hdr)] == hdr:
            r.read_expect(hdr)
            same(r.bit_tell(), 8 * len(hdr), "position")
        else:
            raises(LevelParseException, "read_expect(%r) on %r" % (hdr, got), r.read_expect, hdr)
    else:
        data = R.encode_replay({"version": 3, "username": b"u" if hdr else None, "level": b"lvl", "frames": 3, "players": [(1, {})], "entities": []})
        i = data.rindex(b"DF_RPL") if hdr else 0
        if got == b"DF_RPL":
            DFReader(io.BytesIO(data)).read_replay()
        else:
            raises(LevelParseException, "replay header %r" % got, DFReader(io.BytesIO(data[:i] + got + data[i + 6:])).read_replay)
    t.nontrivial(True)


def near(h):
    return st.one_of(st.just(h), st.tuples(st.integers(0, 5), gen.ints(1, 255)).map(lambda v: h[:v[0]] + bytes([h[v[0]] ^ v[1]]) + h[v[0] + 1:]),
                     st.binary(min_size=6, max_size=6))


hdr_cases = st.one_of(
    st.tuples(st.just("level"), st.just(b""), near(b"DF_LVL")),
    st.tuples(st.just("replay"), st.sampled_from([b"", b"u"]), near(b"DF_RPL")),
    st.sampled_from([b"DF_STA", b"DF_CFG"]).flatmap(lambda h: st.tuples(st.just("var"), st.just(h), near(h))),
    st.tuples(st.just("expect"), gen.byte_strings(5), gen.byte_strings(8)),
    gen.byte_strings(6).flatmap(lambda h: st.tuples(st.just("expect"), st.just(h), st.binary(max_size=2).map(lambda x: h + x))),
    st.tuples(gen.byte_strings(6), st.integers(0, 6), st.binary(max_size=2)).map(lambda v: ("expect", v[0], v[0][:v[1]] + v[2])),
)


# ---- misc ----------------------------------------------------------------------------------------

def seeks(case, t):
    data, pre, pos, skip = case
    s = io.BytesIO(data)
    w = BitIOWriter(s)
    if pre:
        w.write(pre, 1)
    if skip:
        target = w.bit_tell() + pos
        fn, arg = w.skip, pos
    else:
        target = pos
        fn, arg = w.bit_seek, pos
    if target % 8:
        raises(RuntimeError, "unaligned seek to %d" % target, fn, arg)
        if not skip:
            w.bit_seek(target, allow_unaligned=True)
            same(w.bit_tell(), target, "position")
    else:
        fn(arg)
        same(w.bit_tell(), target, "position")
    t.nontrivial(True)


def matrices(case, t):
    rows, odd = case
    rows = [list(r) for r in rows]
    if odd is not None:
        i, j, name = odd
        if i < len(rows) and j < len(rows[i]):
            rows[i][j] = ODD.get(name, name)
    ok = len(rows) == 3 and all(len(r) == 3 for r in rows) and all(isinstance(e, (int, float)) for r in rows for e in r) and tuple(rows[2]) == (0, 0, 1)
    if ok:
        m = TxMatrix(rows)
        same([list(r) for r in m], rows, "matrix")
    else:
        raises(AssertionError, "TxMatrix(%r)" % (rows,), TxMatrix, rows)
    t.label("ok" if ok else "bad")
    t.nontrivial(True)


num = st.one_of(st.integers(-3, 3), st.floats(-3, 3))
row = st.lists(num, min_size=3, max_size=3)
last = st.one_of(st.just([0, 0, 1]), st.just([0.0, 0, 1.0]), row, st.sampled_from([[0, 0, 2], [0, 1, 1], [1, 0, 1], [0, 0, -1], [0, 0, 0], [0, 0, 1, 0], [0, 0]]))
mats = st.tuples(st.one_of(st.tuples(row, row, last).map(list), st.tuples(row, row, last).map(list), st.lists(row, max_size=5),
                           st.tuples(st.lists(num, min_size=2, max_size=4), row, last).map(list),
                           st.tuples(row, row, st.just([0, 0, 1]), st.just([0, 0, 1])).map(list)),
                 st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 2), st.integers(0, 2), st.sampled_from(["none", "str", "list", "complex", "obj"]))))


def dustblocks(case, t):
    sset, stile, pal = case
    tl = Tile(sprite_set=TileSpriteSet(sset), sprite_tile=stile, sprite_palette=pal)
    check(tl.is_dustblock() == (DUSTBLOCK.get(sset) == stile), "is_dustblock() is %r for set %d tile %d", tl.is_dustblock(), sset, stile)
    if sset in DUSTBLOCK:
        tl.set_dustblock()
        same((int(tl.sprite_set), tl.sprite_tile, tl.sprite_palette, tl.is_dustblock()), (sset, DUSTBLOCK[sset], 1, True), "dustblock sprite")
    else:
        raises(ValueError, "dustblock of sprite set %d" % sset, tl.set_dustblock)
        same((int(tl.sprite_set), tl.sprite_tile, tl.sprite_palette), (sset, stile, pal), "sprite after the refusal")
    t.nontrivial(True)


TAGS = "biufsv"
SUBS = [
    Sub("6bit-strings", lambda: st.tuples(strs, st.sampled_from(["direct", "key", "strkey", "file", "etype"])), str6, 6000),
    Sub("long-strings", lambda: st.tuples(st.one_of(st.sampled_from([65534, 65535, 65536, 65537]), gen.size(0, 140000, 10)), st.integers(0, 9)), strings, 250),
    Sub("long-arrays", lambda: st.tuples(st.sampled_from("bssS"), st.sampled_from([65534, 65535, 65536, 65537, 65535, 65536, 70000, 131072]), st.integers(0, 3),
                                         st.booleans()), arrays, 40, 160),
    Sub("values", lambda: st.tuples(st.sampled_from(TAGS), vals, st.sampled_from(["new", "set", "array", "array2", "struct", "deep"])), values, 12000),
    Sub("containers", lambda: st.tuples(st.sampled_from(["array-elem", "array-raw", "array-type", "struct-key", "struct-val", "assign"]),
                                        st.sampled_from("biufsvda"), st.sampled_from("biufsvda"), st.one_of(st.just(1), gen.size(0, 400, 10)),
                                        st.integers(0, 500)), containers, 3000),
    Sub("replays", lambda: st.tuples(st.one_of(st.integers(-2, 9), gen.ints(-40, 207)), st.integers(0, 4), st.sampled_from([b"", b"user"]),
                                     st.sampled_from(["write", "read"])), replay, 2000),
    Sub("region-data", lambda: st.tuples(gen.levels(max_tiles=3, max_props=1, max_ents=1, var_depth=0), st.one_of(st.integers(-2, 2), gen.ints(-100, 100)),
                                         st.booleans(), st.sampled_from(["data", "offsets"])), regions, 500),
    Sub("headers", lambda: hdr_cases, headers, 3000),
    Sub("seeks", lambda: st.tuples(st.binary(max_size=9), st.integers(0, 9), gen.ints(0, 300), st.booleans()), seeks, 2500),
    Sub("matrices", lambda: mats, matrices, 5000),
    Sub("dustblocks", lambda: st.tuples(st.integers(0, 7), st.one_of(st.sampled_from([21, 13, 6, 9, 2]), st.integers(0, 255)), st.integers(0, 15)), dustblocks, 1500),
]
