import copy

import dustmaker
from dustmaker.level import Level
from dustmaker.prop import Prop

from ..engine import Sub, check, same
from .. import fileview, gen
from ..model import expand, lossy, mklevel, specview
from hypothesis import strategies as st

ID = "C02"
RULE = "the level has at least one region"


def auto_id(lv):
    return copy.deepcopy(lv).add_prop(1, 0, 0, Prop(0, 0, False, False, 1.0, 0, 0, 0, 0))


def layout(case, t):
    spec, deletions, direct = case
    spec = expand(spec)
    lv = mklevel(spec)
    if direct:  # the same content, put straight into the dictionaries
        lv2 = Level()
        lv2.variables, lv2.sshot = lv.variables, lv.sshot
        for a, b in ((lv2, lv), (lv2.backdrop, lv.backdrop)):
            if direct == 1:
                a.tiles, a.props, a.entities = b.tiles, b.props, b.entities
            else:
                for d, s in ((a.tiles, b.tiles), (a.props, b.props), (a.entities, b.entities)):
                    d.update(reversed(list(s.items())))
        lv = lv2
        t.label("direct")
    for i, kind in enumerate(deletions):
        d = {"p": lv.props, "e": lv.entities, "b": lv.backdrop.props}[kind]
        if d:
            del d[sorted(d)[i % len(d)] if i % 2 else max(d)]
    want = lossy(specview(spec))
    want["props"] = {k: v for k, v in want["props"].items() if k in lv.props}
    want["ents"] = {k: v for k, v in want["ents"].items() if k in lv.entities}
    want["bprops"] = {k: v for k, v in want["bprops"].items() if k in lv.backdrop.props}
    nxt = 0 if direct else auto_id(lv)  # direct changes need calculate_max_id before ids are assigned
    data = dustmaker.write_level(lv)
    dec = fileview.decode(data)
    check(dec["version"] == 44, "level version %d", dec["version"])
    check(dec["meta_version"] == 4, "metadata version %d", dec["meta_version"])
    keys = [(r["x"], r["y"]) for r in dec["regions"]]
    check(keys == sorted(set(keys), key=lambda k: (k[0] & 0xFFFF, k[1] & 0xFFFF)), "region order %r", keys)
    for r in dec["regions"]:
        check(r["version"] == 14, "region version %d", r["version"])
        sk = [(s["x"], s["y"]) for s in r["segments"]]
        check(len(sk) == len(set(sk)), "segment written twice: %r", sk)
        check(all(0 <= a < 16 and 0 <= b < 16 for a, b in sk), "segment out of range: %r", sk)
        for s in r["segments"] + ([r["backdrop"]] if r["backdrop"] else []):
            check(s["version"] == 8 and s["width"] == 16, "segment version %d width %d", s["version"], s["width"])
        if r["backdrop"]:
            check((r["backdrop"]["x"], r["backdrop"]["y"]) == (0, 0), "backdrop segment at %r", (r["backdrop"]["x"], r["backdrop"]["y"]))
    for kind, rk, sk, key, val in fileview.placed(dec):
        if kind == "tile":
            cx, cy = key[1], key[2]
        elif kind == "btile":
            cx, cy = key[1] * 16, key[2] * 16
        else:
            x, y = (val[1], val[2]) if kind in ("prop", "bprop") else (val[0], val[1])
            cx, cy = int(x // 48), int(y // 48)
        check((cx // 256, cy // 256) == rk, "%s %r at tile (%d,%d) is in region %r", kind, key, cx, cy, rk)
        if sk is not None:
            check((cx // 16 % 16, cy // 16 % 16) == sk, "%s %r at tile (%d,%d) is in segment %r", kind, key, cx, cy, sk)
    same(fileview.view(dec), want, "decoded file")
    used = list(want["props"]) + list(want["ents"]) + list(want["bprops"])
    check(all(dec["next_id"] > i for i in used), "next id %d, ids in use up to %d", dec["next_id"], max(used, default=0))
    check(dec["next_id"] >= nxt, "next id %d recorded, level would assign %d", dec["next_id"], nxt)
    t.nontrivial(bool(dec["regions"]))
    if len(dec["regions"]) > 1:
        t.label("several-regions")
    if any(r["backdrop"] for r in dec["regions"]):
        t.label("backdrop")
    if deletions:
        t.label("after-deletion")


direct = st.sampled_from([0, 0, 1, 2])
dels = st.lists(st.sampled_from("peb"), max_size=3)

SUBS = [
    Sub("level", lambda: st.tuples(gen.levels(few=True), dels, direct), layout, 2600),
    Sub("spread", lambda: st.tuples(gen.levels(max_tiles=25, max_props=12, max_ents=8, max_bprops=8, var_depth=0), st.just([]), direct),
        layout, 900),
    Sub("bulk", lambda: st.tuples(gen.levels(max_tiles=3, bulk=True), st.just([]), direct), layout, 90),
    Sub("crowded", lambda: st.tuples(gen.crowded(), st.just([]), st.just(0)), layout, 100, 500),
]
