import io

import dustmaker
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.level import Level
from hypothesis import strategies as st

from ..engine import Sub, check, same
from .. import encplan, fileview, gen
from .. import refcodec as R
from ..model import expand, levelview, mkvars, quant, varsview

ID = "C05"
RULE = "the file has at least one region and the edit changes the metadata"


def edit(case, t):
    spec, plan, newvars, newsshot, mode, pre, post = case
    spec = expand(spec)
    data, want, used = encplan.build(spec, plan)
    if mode & 1:  # a file made by dustmaker itself
        data = dustmaker.write_level(dustmaker.read_level(data))
    ref = fileview.decode(data, "input file", regions=False)
    base = ref["base"]
    lo = b"\xA5" * pre
    r = DFReader(io.BytesIO(lo + data + b"\x5A" * post))
    r.bit_seek(8 * pre)
    lv, offs = r.read_level_ex()
    check(r.aligned() and r.bit_tell() == 8 * (pre + base), "reader stands at bit %d after the metadata, regions start at %d",
          r.bit_tell(), 8 * (pre + base))
    same(list(offs), ref["offsets"] + [len(data) - base], "region offsets")
    region = r.read_bytes(offs[-1])
    same(region, data[base:], "raw region data")
    same(varsview(lv.variables), quant(spec["vars"]), "variables of the metadata read")
    same(bytes(lv.sshot), ref["sshot"], "thumbnail of the metadata read")
    # a metadata only read and a region by region read agree with the full read
    full = levelview(dustmaker.read_level(data))
    r2 = DFReader(io.BytesIO(data))
    mo = r2.read_level(metadata_only=True)
    same(varsview(mo.variables), full["vars"], "variables of a metadata only read")
    same(bytes(mo.sshot), full["sshot"], "thumbnail of a metadata only read")
    check(not (mo.tiles or mo.props or mo.entities), "metadata only read returned content")
    # edits
    old_next = ref["next_id"]
    nv = spec["vars"] if newvars is None else newvars
    ns = ref["sshot"] if newsshot is None else newsshot
    if newvars is not None:
        lv.variables = mkvars(newvars)
    if newsshot is not None:
        lv.sshot = newsshot
    if mode & 2:
        cuts = [0] + sorted({offs[-1] * i // 7 for i in range(1, 7)} | set(offs[:-1])) + [offs[-1]]
        rd = [region[a:b] for a, b in zip(cuts, cuts[1:])]
        if mode & 16:
            rd = [region[i:i + 1] for i in range(len(region))]
        if mode & 32:
            rd = [b""] + [x for c in rd for x in (c, b"")]
        if mode & 64:
            rd = tuple(rd)
        if mode & 4:
            rd = iter(rd)
    else:
        rd = region
    if mode & 128:  # directory entries need not be in the order of the data
        offs = list(offs[1:-1]) + list(offs[:-1][:1]) + [offs[-1]]
    offs_before = list(offs)
    s = io.BytesIO(b"\x77" * (pre + (50 if mode & 8 else 0)))
    s.seek(pre)
    w = DFWriter(s, noclose=True)
    w.write_level_ex(lv, offs, rd)
    check(w.bit_tell() % 8 == 0, "writer unaligned after the level")
    end = w.bit_tell() // 8
    w.close()
    same(list(offs), offs_before, "the caller's offsets")
    raw = s.getvalue()
    out = raw[pre:end]
    same(raw[:pre], b"\x77" * pre, "bytes before the level")
    dec = fileview.decode(out, "edited file", regions=False)
    same(out[dec["base"]:], data[base:], "region data of the edited file")
    same(dec["offsets"], offs_before[:-1], "region directory of the edited file")
    same(fileview.floaty(dec["vars"]), quant(nv), "variables of the edited file")
    same(dec["sshot"], ns, "thumbnail of the edited file")
    check(dec["next_id"] >= old_next, "next id decreased from %d to %d", old_next, dec["next_id"])
    back = levelview(dustmaker.read_level(out))
    lt = lambda v: dict(v[1]).get("level_type") == ("i", 6)
    if lt(nv) == lt(spec["vars"]) or all(v > 6 for v in plan["sver"]):
        exp = dict(full, vars=quant(nv), sshot=ns)
        same(back, exp, "edited level")
    # region by region
    r3 = DFReader(io.BytesIO(out))
    lv3, o3 = r3.read_level_ex()
    b3 = r3.bit_tell() // 8
    for i, o in enumerate(sorted(o3[:-1])):
        check(r3.bit_tell() == 8 * (b3 + o), "region %d starts at %d, offset says %d", i, r3.bit_tell() // 8 - b3, o)
        r3.read_region(lv3)
    check(r3.bit_tell() == 8 * len(out), "regions end at %d of %d", r3.bit_tell() // 8, len(out))
    same(levelview(lv3), back, "level read region by region")
    t.nontrivial(used["regions"] and (newvars is not None or newsshot is not None))
    t.label("regions=%d" % min(used["regions"], 3))


def bare(case, t):
    """Levels written without regions."""
    spec, newvars, sshot = case
    data, _, _ = encplan.build(dict(spec, tiles=[], props=[], ents=[], btiles=[], bprops=[]), encplan.PLAIN)
    r = DFReader(io.BytesIO(data))
    lv, offs = r.read_level_ex()
    same(list(offs), [0], "offsets of a file without regions")
    lv.variables = mkvars(newvars)
    lv.sshot = sshot
    w = DFWriter(io.BytesIO())
    w.write_level_ex(lv, [0], b"")
    w.flush()
    dec = fileview.decode(w.data.getvalue(), "file without regions")
    check(not dec["regions"], "regions appeared")
    same(fileview.floaty(dec["vars"]), quant(newvars), "variables")
    same(dec["sshot"], sshot, "thumbnail")
    # [0] omits the regions even when the level has content
    lv2 = dustmaker.read_level(encplan.build(spec, encplan.PLAIN)[0])
    w = DFWriter(io.BytesIO())
    w.write_level_ex(lv2, [0], b"")
    w.flush()
    dec = fileview.decode(w.data.getvalue(), "file without regions")
    check(not dec["regions"], "offsets [0] wrote regions")
    t.nontrivial(True)


def opaque(case, t):
    """The region data is carried over as it is, whatever it is and however much."""
    sizes, newvars, sshot, mode, seed = case
    cuts = [0]
    for n in sizes:
        cuts.append(cuts[-1] + n)
    region = gen.pattern(cuts[-1], seed)
    offs = list(cuts) if sizes else [0]
    parts = [region[a:b] for a, b in zip(cuts, cuts[1:])]
    lv = Level()
    for i in range(2):
        w = DFWriter(io.BytesIO())
        w.write_level_ex(lv, offs, (region, parts, iter(parts))[mode % 3])
        w.flush()
        out = w.data.getvalue()
        dec = fileview.decode(out, "file", regions=False)
        same(dec["offsets"], offs[:-1], "region directory")
        check(out[dec["base"]:] == region, "region data differs (%d bytes, expected %d)", len(out) - dec["base"], len(region))
        r = DFReader(io.BytesIO(out))
        lv, offs2 = r.read_level_ex()
        same(list(offs2), offs, "region offsets")
        check(r.read_bytes(offs2[-1]) == region, "region data read differs")
        if i:
            same(fileview.floaty(dec["vars"]), quant(newvars), "variables")
            same(dec["sshot"], sshot, "thumbnail")
        lv.variables, lv.sshot = mkvars(newvars), sshot
    t.nontrivial(bool(sizes))
    if cuts[-1] >= 65536:
        t.label(">=64 KiB of regions")
    if len(sizes) > 255:
        t.label(">255 regions")


sshots = st.one_of(st.none(), gen.byte_strings(60), st.builds(gen.pattern, gen.size(0, 70000, 300), st.integers(0, 99)))
# mostly near the start of the stream, sometimes beyond every power of two a position may be confused at
far = st.integers(0, 11).flatmap(lambda n: st.integers(0, 9) if n else st.one_of(gen.size(0, 300000, 5000), st.sampled_from([8191, 8192, 8193, 65535, 65536, 131072, 262144, 2097152 + 3])))
region_sizes = st.one_of(
    st.lists(st.one_of(gen.size(0, 70000, 300), st.sampled_from([65535, 65536, 131072, 300000, 1 << 20, (1 << 22) + 5])), max_size=4),
    st.lists(st.sampled_from([1 << 23, 1 << 24, 5]), max_size=3),
    st.tuples(st.one_of(st.sampled_from([255, 256, 257, 4096, 65535, 65536, 70000]), gen.size(1, 3000, 256)), st.lists(st.integers(0, 40), min_size=1, max_size=3)).map(
        lambda v: [v[1][i % len(v[1])] for i in range(v[0])]))
newv = st.one_of(st.none(), gen.level_vars(2))


def cases(**kw):
    return st.tuples(gen.levels(fractional=True, few=True, **kw), encplan.plans, newv, sshots, st.integers(0, 255), far,
                     st.sampled_from([0, 0, 5]))


SUBS = [
    Sub("edit", lambda: cases(), edit, 1500),
    Sub("edit-wide", lambda: cases(max_tiles=24, max_props=2, max_ents=2, var_depth=0), edit, 300),
    Sub("no-regions", lambda: st.tuples(gen.levels(max_tiles=2, max_props=1, max_ents=1), gen.level_vars(2),
                                        gen.byte_strings(60)), bare, 250),
    Sub("crowded", lambda: st.tuples(gen.crowded().map(encplan.fits), encplan.plans, newv, st.one_of(st.none(), st.just(b"x")),
                                     st.integers(0, 255).map(lambda m: m & ~16), st.just(0), st.just(0)), edit, 50, 300),
    Sub("opaque", lambda: st.tuples(region_sizes, gen.level_vars(1), gen.byte_strings(20), st.integers(0, 2), st.integers(0, 9)), opaque, 300, 2000),
]
