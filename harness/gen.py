"""Hypothesis strategies for specs (see model.py)."""
import functools

from hypothesis import strategies as st

from . import dictionary as D
from .model import ENT_TABLE, ETYPES, ETYPE_CLASS
from .refcodec import ALPHA6, fixed_candidates

# ---- integers biased to boundaries and to constants of the code --------------------------------


def ints(lo, hi, extra=()):
    alts = [st.integers(lo, hi)]
    b = sorted({v for v in (lo, lo + 1, hi - 1, hi, 0, 1, -1) if lo <= v <= hi} | {v for v in extra if lo <= v <= hi})
    alts.append(st.sampled_from(b))
    small_lo, small_hi = max(lo, -20), min(hi, 20)
    if small_lo < small_hi:
        alts.append(st.integers(small_lo, small_hi))
    dic = D.around(D.INTS, lo, hi)
    if dic:
        alts.append(st.sampled_from(dic))
    nov = D.around(D.NOVEL_INTS, lo, hi)
    if nov:
        alts += [st.sampled_from(nov)] * 2
    return st.one_of(alts)


def size(lo, hi, common=6):
    """Sizes: mostly small, sometimes anything, sometimes around constants of the code."""
    hi0 = min(hi, max(lo, common))
    alts = [st.integers(lo, hi0), st.integers(lo, hi0), st.integers(lo, hi)]
    dic = D.around(D.INTS, lo, hi)
    if dic:
        alts.append(st.sampled_from(dic))
    nov = D.around(D.NOVEL_INTS, lo, hi)
    if nov:
        alts += [st.sampled_from(nov)] * 2
    return st.one_of(alts)


def many(elem, common=4, hi=70):
    """Lists: mostly short, sometimes long ones repeating a few elements (not periodically)."""
    def cyc(v):
        base, n, k = v
        if k >= 3 and n:  # something new at the very end
            return [base[(i * i + k * i) % (len(base) - 1)] for i in range(n - 1)] + base[-1:]
        return [base[(i * i + k * i) % len(base)] for i in range(n)]
    short = st.lists(elem, max_size=common)
    long = st.tuples(st.lists(elem, min_size=2, max_size=5), size(0, hi, 12), st.integers(0, 5)).map(cyc)
    return st.integers(0, 5).flatmap(lambda n: long if n == 0 else short)


def bits_of(data, sizes):
    v = int.from_bytes(data, "little")
    out = []
    for s in sizes:
        out.append(v & ((1 << s) - 1))
        v >>= s
    return out


# ---- tiles -------------------------------------------------------------------------------------

TILE_BYTES = 45


def _sgn(b):
    return b - 256 if b > 127 else b


def edge_of(d):
    """9 bytes -> edge"""
    f = d[0]
    fset = d[1] & 7 if d[1] & 8 else 0
    return (bool(f & 1), bool(f & 2), (bool(f & 4), bool(f & 8)), (_sgn(d[2]), _sgn(d[3])), fset, bool(f & 16),
            (bool(f & 32), bool(f & 64)), (_sgn(d[4]), _sgn(d[5])))


def tile_of(d):
    """45 bytes -> tile spec"""
    shape = (d[0] + 256 * d[6]) % 21
    sset = d[2] & 7
    stile = d[3]
    if d[4] & 16 and sset in (1, 2, 3, 4, 5):  # make dustblocks common
        stile = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}[sset]
    edges = tuple(edge_of(d[9 + 9 * i:18 + 9 * i]) for i in range(4))
    return (shape, d[1] & 7, sset, stile, d[4] & 15, edges)


tile = st.binary(min_size=TILE_BYTES, max_size=TILE_BYTES).map(tile_of)
edge = st.binary(min_size=9, max_size=9).map(edge_of)


def region_coord():
    return st.sampled_from([0, 0, 0, -1, 1, 2, -2, 127, -128, 32767, -32768, 255, 256, -255, -256, 3000])


def tile_anchor():
    """Tile coordinates: near the origin, near segment/region borders, and at the extremes."""
    return st.one_of(
        st.integers(-40, 40),
        st.builds(lambda r, o: r * 256 + o, region_coord(), st.sampled_from([0, 1, 15, 16, 17, 128, 239, 240, 254, 255])),
        st.builds(lambda r, o: r * 256 + o, region_coord(), st.integers(0, 255)),
        ints(-32768 * 256, 32767 * 256 + 255),
    )


@st.composite
def positions(draw, n_lo, n_hi, anchor, spread, lo, hi, avg=4):
    """List of (x, y), clustered around a few anchors."""
    anchors = draw(st.lists(st.tuples(anchor, anchor), min_size=1, max_size=3))
    n = draw(st.integers(n_lo, n_hi))
    out = []
    for _ in range(n):
        ax, ay = anchors[draw(st.integers(0, len(anchors) - 1))] if len(anchors) > 1 else anchors[0]
        dx, dy = draw(spread), draw(spread)
        out.append((min(hi, max(lo, ax + dx)), min(hi, max(lo, ay + dy))))
    return out


TLO, THI = -32768 * 256, 32767 * 256 + 255


@st.composite
def tiles(draw, max_n=10, layer=None, lo=TLO, hi=THI, anchor=None, tile_st=None):
    pos = draw(positions(0, max_n, tile_anchor() if anchor is None else anchor, st.integers(-3, 18), lo, hi))
    out, seen = [], set()
    layer = st.sampled_from([19, 19, 19, 0, 1, 17, 18, 20, 12, 6]) if layer is None else layer
    for x, y in pos:
        l = draw(layer)
        if (l, x, y) in seen:
            continue
        seen.add((l, x, y))
        out.append((l, x, y, draw(tile_st or tile)))
    return out


any_layer = st.integers(0, 20)

# ---- props -------------------------------------------------------------------------------------


def prop_of(d):
    """18 bytes -> prop spec"""
    v = bits_of(d, (8, 16, 1, 1, 8, 8, 12, 12, 8))
    return (v[0], v[1], bool(v[2]), bool(v[3]), v[4] % 56, v[5], v[6], v[7], v[8])


prop = st.one_of(
    st.binary(min_size=12, max_size=12).map(prop_of),
    st.tuples(ints(0, 255), ints(0, 0xFFFF, (0x4000, 0x8000, 0xC000)), st.booleans(), st.booleans(), ints(0, 55, (32,)),
              ints(0, 255), ints(0, 4095), ints(0, 4095), ints(0, 255)),
)

PLO, PHI = -(2**27) + 1, 2**27 - 1


def px_anchor():
    return st.one_of(
        st.integers(-100, 100),
        tile_anchor().map(lambda t: max(PLO, min(PHI, t * 48))),
        ints(PLO, PHI),
    )


px_spread = st.one_of(st.sampled_from([0, 0, -1, 1, 47, 48, -48, -47, -49, 24]), st.integers(-800, 800))

ids = st.one_of(st.integers(0, 130), st.integers(90, 2000), ints(0, 2**31 - 1))


@st.composite
def props(draw, max_n=6, fractional=False, anchor=None, taken=(), layer=None):
    pos = draw(positions(0, max_n, px_anchor() if anchor is None else anchor, px_spread, PLO, PHI))
    out, seen = [], set(taken)
    for x, y in pos:
        i = draw(ids)
        if i in seen:
            continue
        seen.add(i)
        if fractional and draw(st.integers(0, 3)) == 3:
            x, y = x + draw(st.sampled_from([0.5, 0.25, 0.75, 0.125])), y + draw(st.sampled_from([0.0, 0.5, 0.99]))
        elif draw(st.booleans()):
            x, y = float(x), float(y)
        out.append((i, draw(layer or ints(0, 255)), x, y, draw(prop)))
    return out


# ---- strings and variables -----------------------------------------------------------------------

_key_alts = [st.sampled_from(D.KEYS6), st.text(ALPHA6, min_size=0, max_size=8), st.text(ALPHA6, min_size=1, max_size=63),
             st.sampled_from(["a", "b", "x", "Z{", "_", "0", "A" * 63, "k" * 62])]
if D.NOVEL_KEYS6:
    _key_alts += [st.sampled_from(D.NOVEL_KEYS6)] * 2
str6 = st.one_of(_key_alts)


def pattern(n, seed):
    """n bytes of deterministic non-periodic content"""
    out = bytearray()
    x = seed & 0xFFFF | 1
    while len(out) < min(n, 4096):
        x = (x * 25173 + 13849) & 0xFFFF
        out += x.to_bytes(2, "little")
    out = bytes(out)
    return (out * (n // len(out) + 1))[:n] if out else b""


def byte_strings(max_size=40, long=False):
    alts = [st.binary(max_size=max_size), st.sampled_from(D.BYTES + [b"", b"\x00", b"\xff" * 4, b"hello"])]
    if D.NOVEL_BYTES:
        alts += [st.sampled_from(D.NOVEL_BYTES)] * 2
    if D.NOVEL_INTS:
        lens = D.around(D.NOVEL_INTS, 0, 3000)
        if lens:
            alts.append(st.builds(pattern, st.sampled_from(lens), st.integers(0, 9)))
    if D.NOVEL_STRS:
        alts.append(st.sampled_from([s.encode("latin1", "replace") for s in D.NOVEL_STRS]))
    return st.one_of(alts)


# thumbnails, sometimes longer than any one- or two-byte count
sshots = st.integers(0, 7).flatmap(lambda n: st.builds(pattern, size(200, 140000, 70000), st.integers(0, 9)) if n == 0 else
                                   st.one_of(st.just(b""), byte_strings(30)))


def _fixq(x):
    """Keep x if its fixed-point encoding is unambiguous, else snap to the grid."""
    c = fixed_candidates(x, 32)
    return x if len(c) == 1 else c[0] / (1 << 31)


_float_alts = [
    st.integers(-4000, 4000).map(lambda n: n / 8),
    st.integers(-(2**31) * 64, 2**31 * 64).map(lambda n: n / (1 << 31)),
    st.floats(-1000, 1000, allow_nan=False).map(_fixq),
    st.floats(-(2.0**31) + 1, 2.0**31 - 1, allow_nan=False).map(_fixq),
    st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0**31 - 1, -(2.0**31) + 1, 2.0**-31, -(2.0**-31), -1.5, 0.1, -0.1]),
]
_fd = [f for f in D.FLOATS if abs(f) < 2**31 - 1]
if _fd:
    _float_alts.append(st.sampled_from(_fd).map(_fixq))
_fn = [f for f in D.NOVEL_FLOATS if abs(f) < 2**31 - 1]
if _fn:
    _float_alts += [st.sampled_from(_fn).map(_fixq)] * 2
if D.NOVEL_INTS:
    _float_alts.append(st.sampled_from([float(i) for i in D.around(D.NOVEL_INTS, -(2**31) + 1, 2**31 - 1)] or [0.0]))
floats = st.one_of(_float_alts)

i32 = ints(-(2**31), 2**31 - 1)
u32 = ints(0, 2**32 - 1)

LEAF = {
    "b": st.booleans().map(lambda v: ("b", v)),
    "i": i32.map(lambda v: ("i", v)),
    "u": u32.map(lambda v: ("u", v)),
    "f": floats.map(lambda v: ("f", v)),
    "s": byte_strings().map(lambda v: ("s", v)),
    "v": st.tuples(floats, floats).map(lambda v: ("v", v)),
}
leaf = st.one_of(*[LEAF[k] for k in "biufsv"])


@functools.lru_cache(maxsize=None)
def typed(tag, depth):
    if tag in LEAF:
        return LEAF[tag]
    return struct(depth) if tag == "d" else array(depth)


@functools.lru_cache(maxsize=None)
def array(depth, homogeneous=False):
    tags = "biufsv" if depth <= 0 else "biufsvdaad"
    return st.sampled_from(tags).flatmap(
        lambda t: (many(typed(t, depth - 1)) if t in LEAF else many(typed(t, depth - 1), 4, 24)).map(
            lambda xs: ("a", t, tuple(xs))))


@functools.lru_cache(maxsize=None)
def struct(depth, max_size=4):
    return st.lists(st.tuples(str6, var(depth - 1)), max_size=max_size, unique_by=lambda kv: kv[0]).map(
        lambda kvs: ("d", tuple(kvs)))


@functools.lru_cache(maxsize=None)
def var(depth):
    if depth <= 0:
        return leaf
    return st.one_of(leaf, leaf, struct(depth), array(depth))


RESERVED = {"level_type", "level_name", "vector_character", "dustmod_version", "icon_taken"} | {
    "p%d_%s" % (p, c) for p in range(1, 5) for c in "xy"}

level_types = st.sampled_from([0, 0, 6, 6, 1, 2, 3, 4])


@st.composite
def level_vars(draw, depth=2, max_size=4):
    kvs = [kv for kv in draw(struct(depth, max_size))[1] if kv[0] not in RESERVED]
    if draw(st.booleans()):
        kvs.append(("level_type", ("i", draw(level_types))))
    if draw(st.booleans()):
        kvs.append(("level_name", ("s", draw(byte_strings(12)))))
    for p in draw(st.lists(st.sampled_from(["p%d_%s" % (p, c) for p in range(1, 5) for c in "xy"]), max_size=3, unique=True)):
        kvs.append((p, ("i", draw(st.one_of(st.integers(-5000, 5000), ints(-(2**24), 2**24))))))
    if draw(st.booleans()):
        kvs.append(("dustmod_version", ("s", draw(st.one_of(st.just(b"dustmaker"), byte_strings(12))))))
    more = draw(st.integers(0, 15))
    for bit, k in ((1, "icon_taken"), (4, "vector_character")):
        if more & bit:
            kvs.append((k, ("b", bool(more & 2 * bit))))
    return ("d", tuple(kvs))


# ---- entities ------------------------------------------------------------------------------------

_et_alts = [st.sampled_from(ETYPES), st.sampled_from(ETYPES), st.sampled_from(["entity", "z_button", "z_", "z_string_list",
            "unknown_type", "entity_emitter", "entity_cleansed", "z", "entitz", "_", "Z_a", "az_b", "dustmod_trigger"]),
            str6]
if D.NOVEL_KEYS6:
    _et_alts.append(st.sampled_from(D.NOVEL_KEYS6))
def _near_name(v):
    """Names a slip in a lookup would confuse with a known one."""
    n, how = v
    return [n + "_", "_" + n, n.upper(), n.capitalize(), n[:-1], n[1:], n + "s", "z_" + n, n + "2", n.replace("_", ""), n + n[-1],
            n.split("_")[0], n.split("_")[-1], n + "_" + n, "entity_" + n, n[::-1], n.swapcase(), n + "{"][how][:63]


near_names = st.tuples(st.sampled_from(ETYPES), st.integers(0, 17)).map(_near_name)
_et_alts.append(near_names)
etypes = st.one_of(_et_alts)


def _wide():
    """Floats of any magnitude below 2**28 with a few binary places, and around constants of the code."""
    alts = [st.builds(lambda m, e: m / 8 * 2.0 ** e, st.integers(-4095, 4095), st.integers(0, 19))]
    fs = sorted({f + d for f in D.NOVEL_FLOATS + [float(i) for i in D.NOVEL_INTS] if abs(f) < 2**28 for d in (-1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 7.75)})
    fs += [-f for f in fs]
    if fs:
        alts.append(st.sampled_from(fs))
    return st.one_of(alts)


def _small_vec():
    c = st.one_of(st.integers(-4000, 4000).map(lambda n: n / 4), st.integers(-500, 500).map(float), _wide())
    return st.tuples(c, c).map(lambda v: ("v", v))


TYPED_LEAF = dict(LEAF)
TYPED_LEAF["v"] = _small_vec()
TYPED_LEAF["f"] = st.one_of(st.integers(-4000, 4000).map(lambda n: n / 8), st.sampled_from([1.0, 0.5, 2.0]), _wide()).map(lambda v: ("f", v))
TYPED_LEAF["i"] = st.one_of(st.integers(-5000, 5000), ints(-(2**20), 2**20), ints(-(2**27), 2**27)).map(lambda v: ("i", v))
TYPED_LEAF["u"] = st.one_of(st.integers(0, 5000), ints(0, 2**31)).map(lambda v: ("u", v))


def _default(a):
    """Documented default of an accessor, as a variable (None if there is none)."""
    d = a.get("default")
    if isinstance(d, dict):
        d = d["bytes"].encode("latin1") if "bytes" in d else None
    if isinstance(d, list):
        d = tuple(d)
    if a["tag"] == "f" and d is not None:
        d = _fixq(float(d))
    return None if d is None else (a["tag"], d)


@functools.lru_cache(maxsize=None)
def typed_vars(etype):
    """Variables consistent with the documented accessors of the entity class."""
    cls = ETYPE_CLASS.get(etype)
    acc = ENT_TABLE[cls]["accessors"] if cls else {}
    names = {a["var"] for a in acc.values()} | {"fog_trigger"}
    opts = []
    for a in sorted(acc.values(), key=lambda a: a["var"]):
        if "arr" in a:
            t = a["arr"]
            s = many(TYPED_LEAF[t], 3, 400).map(lambda xs, t=t: ("a", t, tuple(xs)))
        else:
            s = TYPED_LEAF[a["tag"]]
            d = _default(a)
            if d is not None:
                s = st.one_of(s, s, s, st.just(d))
        opts.append(st.one_of(st.none(), st.tuples(st.just(a["var"]), s)))
    extra = st.lists(st.tuples(str6.filter(lambda k: k not in names), leaf), max_size=1, unique_by=lambda kv: kv[0])
    return st.tuples(st.tuples(*opts), extra).map(
        lambda v: ("d", tuple(x for x in v[0] if x is not None) + tuple(v[1])))


def _ent(etype, vs, d):
    v = bits_of(d, (16, 8, 1, 1, 1))
    return (etype, vs, v[0], v[1], bool(v[2]), bool(v[3]), bool(v[4]))


typed_ent = st.sampled_from(ETYPES + ["z_button", "unknown_type", "entity"]).flatmap(
    lambda et: st.builds(_ent, st.just(et), typed_vars(et), st.binary(min_size=4, max_size=4)))
any_ent = st.builds(_ent, etypes, struct(2, 3), st.binary(min_size=4, max_size=4))
raw_ent = st.one_of(any_ent, any_ent, typed_ent)

ELO, EHI = -32768 * 256 * 48, 32768 * 256 * 48 - 1


def ent_anchor():
    return st.one_of(st.integers(-100, 100), tile_anchor().map(lambda t: t * 48), ints(ELO, EHI))


def _ef(x, f):
    y = x + f
    return y if len(fixed_candidates(y, 8)) == 1 else float(x)


@st.composite
def ents(draw, max_n=5, ent=None, anchor=None, frac=True):
    pos = draw(positions(0, max_n, ent_anchor() if anchor is None else anchor, px_spread, ELO, EHI - 1))
    out, seen = [], set()
    for x, y in pos:
        i = draw(ids)
        if i in seen:
            continue
        seen.add(i)
        m = draw(st.integers(0, 3)) if frac else 1
        if m == 0:
            x, y = x + draw(st.integers(0, 127)) / 128, y + draw(st.integers(0, 127)) / 128
        elif m == 1:
            x, y = float(x), float(y)
        elif m == 2:
            x, y = _ef(x, draw(st.floats(0, 0.999))), _ef(y, draw(st.floats(0, 0.999)))
        out.append((i, x, y, draw(raw_ent if ent is None else ent)))
    return out


# ---- levels ----------------------------------------------------------------------------------------

BTLO, BTHI = -32768 * 16, 32768 * 16 - 1


def btile_anchor():
    return st.one_of(st.integers(-20, 20), st.builds(lambda r, o: r * 16 + o, region_coord(), st.integers(0, 15)),
                     ints(BTLO, BTHI))


# one cell on many layers; things scattered over many segments or regions in no particular order
_layers_item = st.tuples(st.just("layers"), size(1, 21, 21), st.sampled_from(["tiles", "btiles"]), st.integers(-20, 20),
                         st.integers(-20, 20), st.integers(0, 999))
_sparse_item = st.tuples(st.just("sparse"), size(1, 300, 40), st.sampled_from([16, 16, 16, 256, 17, 64]),
                         st.sampled_from([4, 7, 16, 20]), st.sampled_from(["tiles", "tiles", "props", "ents"]), st.integers(0, 999))
_few_sparse = st.tuples(st.just("sparse"), size(1, 40, 20), st.sampled_from([16, 16, 256, 17]), st.sampled_from([4, 7, 16]),
                        st.sampled_from(["tiles", "tiles", "props", "ents"]), st.integers(0, 999))
# something in (nearly) every segment of a region
_region_item = st.tuples(st.just("region"), st.sampled_from([0, 0, -1, 3]), st.sampled_from([0, 0, -1, 2]), st.sampled_from([0, 0, 0, 1, 2]),
                         st.sampled_from(["tiles", "tiles", "props"]), st.integers(0, 999))
bulk_item = st.one_of(
    st.tuples(st.just("tiles"), st.sampled_from([19, 19, 5, 20, 0]), st.integers(-20, 20), st.integers(-20, 20),
              size(1, 40, 17), size(1, 40, 17), st.integers(0, 999)),
    st.tuples(st.just("props"), size(1, 1100, 300), st.integers(-800, 800), st.integers(-800, 800), st.integers(0, 999)),
    st.tuples(st.just("ents"), size(1, 1100, 300), st.integers(-800, 800), st.integers(-800, 800), st.integers(0, 999)),
    st.tuples(st.just("vars"), size(1, 300, 100), st.integers(0, 999)),
    _layers_item, _sparse_item, _sparse_item, _region_item,
    # whole segments, every tile filthy (mode 0), no tile (1) or one tile (2) clean
    st.tuples(st.just("filthy"), st.sampled_from([0, 0, -16, 16, 240, -256]), st.sampled_from([0, -16, 16, 256]),
              st.integers(0, 2), st.integers(0, 999)),
)
# very many of one kind, props and entities all in one segment (or backdrop region), tiles in as many regions
_counts = st.one_of(st.sampled_from([255, 1023, 1024, 4095, 4096, 32767]), size(1, 9000, 4096), size(1, 70000, 4096).map(lambda n: min(n, 65535)))
_rcounts = st.one_of(st.sampled_from([255, 256, 257, 300, 511, 512, 513, 1023, 1025]), size(1, 1300, 256))
_crowds = ([(k, n) for k in ("props", "ents", "names", "bprops") for n in (256, 257, 1025, 2049, 4097, 4100, 8193, 12000, 16385, 32768, 40000, 65535)] +
           [(k, n) for k in ("regions", "bregions") for n in (256, 257, 300, 513, 1025)] +
           [("sshot", n) for n in (65536, 140000, 1 << 18, (1 << 20) - 60, 1 << 20, (1 << 22) + 1, (1 << 24) - 1, (1 << 24) + 77)])
crowd_item = st.one_of(
    *[st.tuples(st.sampled_from(_crowds), st.integers(0, 999)).map(lambda v: ("crowd",) + v[0] + v[1:])] * 3,
    st.tuples(st.just("crowd"), st.sampled_from(["props", "ents", "names", "bprops", "props", "ents"]), _counts, st.integers(0, 999)),
    st.tuples(st.just("crowd"), st.sampled_from(["regions", "bregions"]), _rcounts, st.integers(0, 999)),
)
few_item = st.one_of(
    st.tuples(st.sampled_from(["props", "ents", "bprops"]), size(1, 70, 14), st.integers(-800, 800), st.integers(-800, 800),
              st.integers(0, 999)),
    st.tuples(st.just("tiles"), st.sampled_from([19, 19, 5, 20, 0]), st.integers(-20, 20), st.integers(-20, 20),
              size(1, 12, 5), size(1, 12, 5), st.integers(0, 999)),
    st.tuples(st.just("vars"), size(1, 50, 12), st.integers(0, 999)),
    _layers_item, _few_sparse,
)
# hundreds of one kind
large_item = st.one_of(
    st.tuples(st.sampled_from(["props", "ents", "bprops"]), size(1, 1300, 700), st.integers(-800, 800), st.integers(-800, 800), st.integers(0, 999)),
    st.tuples(st.just("tiles"), st.sampled_from([19, 19, 5, 20, 0]), st.integers(-20, 20), st.integers(-20, 20),
              size(1, 40, 30), size(1, 40, 30), st.integers(0, 999)),
)


def _dense(spec, start, key):
    """Renumbers everything consecutively from start, the kinds interleaved by key."""
    objs = [(k, n) for k in ("props", "bprops", "ents") for n in range(len(spec[k]))]
    order = sorted(objs, key=lambda o: (o[1] * key * 7 + {"props": 0, "bprops": 1, "ents": 2}[o[0]] * (key // 7) * 11) % 29)
    num = {o: start + i for i, o in enumerate(order)}
    for k in ("props", "bprops", "ents"):
        spec[k] = [(num[(k, n)],) + tuple(v[1:]) for n, v in enumerate(spec[k])]


@st.composite
def crowded(draw):
    spec = draw(levels(max_tiles=2, max_props=1, max_ents=1, max_bprops=1, var_depth=0))
    spec["bulk"] = [draw(crowd_item)]
    return spec


@st.composite
def levels(draw, typed_ents=False, max_tiles=10, max_props=6, max_ents=4, fractional=False, bulk=False, near=False,
           var_depth=2, max_bprops=3, few=False):
    """near=True keeps everything close to the origin (for transformations)."""
    ta = st.integers(-30, 30) if near else None
    pa = st.integers(-2000, 2000) if near else None
    t = draw(tiles(max_tiles, layer=any_layer if draw(st.integers(0, 3)) == 0 else None, anchor=ta))
    p = draw(props(max_props, fractional, anchor=pa))
    e = draw(ents(max_ents, typed_ent if typed_ents else raw_ent, anchor=pa))
    bt, bp = [], []
    if draw(st.integers(0, 2)):
        bt = draw(tiles(4, layer=any_layer, lo=BTLO, hi=BTHI, anchor=st.integers(-8, 8) if near else btile_anchor()))
        bp = draw(props(max_bprops, fractional, anchor=pa, taken=[]))
    spec = {
        "tiles": t, "props": p, "ents": e, "btiles": bt, "bprops": bp,
        "vars": draw(level_vars(var_depth)),
        "sshot": draw(sshots),
    }
    if bulk:
        spec["bulk"] = draw(st.lists(bulk_item, min_size=1, max_size=2))
    elif few:
        how = draw(st.integers(0, 9))
        large = how == 5 and draw(st.integers(0, 7)) == 3
        if how in (1, 2) or large:
            from .model import expand
            spec["bulk"] = [draw(large_item)] if large else draw(st.lists(few_item, min_size=1, max_size=2))
            spec = expand(spec)
        if how in (2, 3, 4):
            _dense(spec, draw(st.one_of(st.integers(95, 106), st.integers(1, 9))), draw(st.integers(1, 60)))
    return spec
