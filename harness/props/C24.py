import os

import dustmaker
from hypothesis import strategies as st

from ..engine import Sub, check, same
from .. import cli, fileview, gen, txmodel
from .. import geometry as G
from ..model import lossy, mklevel, specview
from .C14 import special_levels

ID = "C24"
RULE = "at least one option departs from its default and the level has content"
ASSUMPTIONS = ["edges without filth carry no filth details; join angles are above -128 (documented: within 90)", "shifts exactly between two whole tiles are not generated; shifts are whole pixels when the level has props"]


def tidy(tiles):
    """No filth details on edges without filth (a tile without any filth does not store them); angles that can be negated."""
    ok = lambda pair: tuple(max(-127, a) for a in pair)

    def edge(e):
        e = e[:3] + (ok(e[3]),) + e[4:7] + (ok(e[7]),)
        return e if e[4] else e[:4] + G.BLANK_EDGE[4:]
    return [(l, x, y, tl[:5] + (tuple(map(edge, tl[5])),)) for l, x, y, tl in tiles]


def transform(case, t):
    spec, opts, place = case
    spec = dict(spec, tiles=tidy(spec["tiles"]), btiles=tidy(spec["btiles"]))
    f, rot, h, v, tx, ty = (opts.get(k) for k in ("upscale", "rotate", "hflip", "vflip", "tx", "ty"))
    if spec["props"] or spec["bprops"]:
        tx, ty = [int(o) if o is not None else None for o in (tx, ty)]
    while tx and any(txmodel.is_tie(tx, s) for s in (48, 768)):
        tx += 1
    while ty and any(txmodel.is_tie(ty, s) for s in (48, 768)):
        ty += 1
    args = []
    if f is not None:
        args += ["--upscale", f]
    if rot is not None:
        args += ["--rotate=%d" % rot]
    if h:
        args += ["--hflip"]
    if v:
        args += ["--vflip"]
    if tx is not None:
        args += ["--translate-x=%r" % tx]
    if ty is not None:
        args += ["--translate-y=%r" % ty]
    lv = mklevel(spec)
    data = dustmaker.write_level(lv)
    before = fileview.view(fileview.decode(data, "input file"))
    same(before, lossy(specview(spec)), "input file")
    f = f or 1
    g = G.turns(rot or 0)
    if v:
        g = G.mul(G.VF, g)
    if h:
        g = G.mul(G.HF, g)
    with cli.scratch() as d:
        p = cli.put(d, "in", data)
        q = p if place == "same" else os.path.join(d, "out")
        if place == "existing":
            cli.put(d, "out", b"old contents that are longer than nothing" * 50)
        a = [p, q]
        args = args + a if opts["last"] else a + args
        r = cli.run("transform", *args)
        check(r.ok, "transform %r failed: %r", args, r)
        if place != "same":
            same(cli.get(p), data, "input file after transform")
        got = fileview.view(fileview.decode(cli.get(q), "output file"))
    want = dict(before)
    if f > 1:
        vs = dict(before["vars"][1])
        if vs.get("level_type", ("i", 0)) == ("i", 0):
            vs["level_type"] = ("i", 6)
        want["vars"] = ("d", tuple(vs.items()))
    got_vs, want_vs = dict(got["vars"][1]), dict(want["vars"][1])
    check(got_vs.get("level_type", ("i", 0)) == want_vs.get("level_type", ("i", 0)), "level type %r, expected %r",
          got_vs.get("level_type"), want_vs.get("level_type"))
    for vs in (got, want):  # the default may or may not be stored
        if dict(vs["vars"][1]).get("level_type") == ("i", 0):
            vs["vars"] = ("d", tuple(kv for kv in vs["vars"][1] if kv[0] != "level_type"))
    txmodel.check_level(got, want, g, f, tx or 0, ty or 0)
    content = any(spec[k] for k in ("tiles", "props", "ents", "btiles", "bprops"))
    t.nontrivial(content and (f > 1 or g != G.ID or tx or ty))
    for k, o in (("upscale", f > 1), ("turned", g != G.ID), ("shifted", tx or ty), ("in place", place == "same")):
        if o:
            t.label(k)
    if f > 1 and (tx or ty):
        t.label("upscale+shift")


def failing(case, t):
    spec, cut = case
    data = dustmaker.write_level(mklevel(spec))
    base = fileview.decode(data, "input", regions=False)["base"]
    data = data[:cut % base]
    with cli.scratch() as d:
        p = cli.put(d, "in", data)
        q = cli.put(d, "out", b"precious")
        for a in ((p, q), (p, p)):
            r = cli.run("transform", *a, "--rotate=1")
            check(not r.ok, "transform of a truncated level reported success")
            same(cli.get(p), data, "input file")
            same(cli.get(q), b"precious", "existing output file after a failure")
    t.nontrivial(True)


def shift():
    return st.one_of(st.none(), st.none(), st.integers(-20, 20).map(lambda n: n * 48), st.integers(-3, 3).map(lambda n: n * 768),
                     st.integers(-3000, 3000), st.integers(-12000, 12000).map(lambda n: n / 4))


opts = st.fixed_dictionaries({
    "upscale": st.one_of(st.sampled_from([None, None, 1, 2, 3, 4]), st.sampled_from([None, None, 1, 2, 3, 4]), st.integers(2, 11)),
    "rotate": st.one_of(st.none(), st.integers(-5, 5), gen.ints(-100, 100), gen.ints(-2**65, 2**65)),
    "hflip": st.booleans(), "vflip": st.booleans(), "tx": shift(), "ty": shift(), "last": st.booleans(),
})
levels = st.one_of(gen.levels(typed_ents=True, near=True, max_tiles=5, max_props=2, max_ents=2, few=True), special_levels())
SUBS = [
    Sub("options", lambda: st.tuples(levels, opts, st.sampled_from(["new", "new", "existing", "same"])), transform, 4000),
    Sub("failures", lambda: st.tuples(gen.levels(max_tiles=1, max_props=1, max_ents=1), st.integers(0, 10000)), failing, 250),
]
