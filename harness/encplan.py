"""Turns a level spec and an encoding plan into a file made by the independent encoder.

plan: {"ver": 43|44, "sver": [segment versions], "order": int, "force": [..], "pad": [..], "junk": [..], "neg": [..],
       "dup": [..], "stray": [..], "next_id": int, "meta": (..), "rver": int, "zlevel": int, "width": int}
The lists are cycled over the segments.
"""
import random

from hypothesis import strategies as st

from . import refcodec as R
from .gen import ints
from .model import has_filth, q128, quant, strip_filth

plans = st.fixed_dictionaries({
    "ver": st.sampled_from([44, 44, 43]),
    "sver": st.lists(st.sampled_from([8, 8, 7, 6, 5, 4, 3, 1, 8, 7, 6, 9, 255, 65535]), min_size=1, max_size=3),
    "order": st.one_of(st.just(0), st.integers(0, 10**6)),
    "force": st.lists(st.lists(st.sampled_from([1, 2, 4, 8]), max_size=2, unique=True), min_size=1, max_size=2),
    "pad": st.lists(st.sampled_from([0, 0, 1, 3, 17]), min_size=1, max_size=2),
    "junk": st.lists(ints(0, 65535), min_size=1, max_size=3),
    "neg": st.lists(st.tuples(st.sampled_from("pe"), st.integers(0, 8), st.one_of(st.just(-1), ints(-(2**31), -1))), max_size=3),
    "dup": st.lists(st.tuples(st.sampled_from("pe"), st.integers(0, 8)), max_size=2),
    "stray": st.lists(st.tuples(st.integers(0, 15), st.integers(0, 15)), max_size=2),
    "next_id": st.one_of(st.just(None), ints(0, 2**31 - 1)),
    "meta": st.tuples(ints(0, 65535), ints(0, 2**32 - 1), ints(0, 2**32 - 1), ints(0, 2**32 - 1), ints(0, 2**32 - 1)),
    "rver": st.sampled_from([14, 14, 13, 0, 65535]),
    "zlevel": st.sampled_from([6, 0, 1, 9]),
    "width": st.sampled_from([16, 16, 0, 255]),
    "hi": st.sampled_from([0, 0, 8, 4, 12]),
    "dustpad": st.sampled_from([0, 0, 1, 0xFF, 0x80]),
})

PLAIN = {"ver": 44, "sver": [8], "order": 0, "force": [[]], "pad": [0], "junk": [0], "neg": [], "dup": [], "stray": [],
         "next_id": None, "meta": (4, 0, 0, 0, 0), "rver": 14, "zlevel": 6, "width": 16, "hi": 0, "dustpad": 0}


def build(spec, plan):
    """Returns (bytes, expected view, info)."""
    rng = random.Random(plan["order"])
    shuffle = rng.shuffle if plan["order"] else (lambda x: None)
    dustmod = dict(spec["vars"][1]).get("level_type") == ("i", 6)
    regs = {}

    def seg_at(cx, cy, backdrop):
        reg = regs.setdefault((cx // 256, cy // 256), {"segs": {}, "bd": None})
        if backdrop:
            if reg["bd"] is None:
                reg["bd"] = {"tiles": [], "props": [], "ents": [], "x": 0, "y": 0}
            return reg["bd"]
        k = (cx // 16 % 16, cy // 16 % 16)
        return reg["segs"].setdefault(k, {"tiles": [], "props": [], "ents": [], "x": k[0], "y": k[1]})

    for l, x, y, t in spec["tiles"]:
        seg_at(x, y, False)["tiles"].append((l, x & 15, y & 15, t))
    for l, x, y, t in spec["btiles"]:
        seg_at(x * 16, y * 16, True)["tiles"].append((l, x & 15, y & 15, t))
    for bd, name in ((False, "props"), (True, "bprops")):
        for pid, l, x, y, p in spec[name]:
            seg_at(int(x // 48), int(y // 48), bd)["props"].append((pid, l, x, y, p))
    for eid, x, y, e in spec["ents"]:
        seg_at(int(x // 48), int(y // 48), False)["ents"].append((eid, x, y, e))

    view = {"tiles": {}, "props": {}, "ents": {}, "btiles": {}, "bprops": {}, "bents": 0,
            "sshot": spec["sshot"] if plan["ver"] > 43 else b"", "vars": quant(spec["vars"])}
    n = 0
    out = []
    keys = sorted(regs, key=lambda k: (k[0] & 0xFFFF, k[1] & 0xFFFF))
    shuffle(keys)
    negs, dups = list(plan["neg"]), list(plan["dup"])
    used = {"old": 0, "neg": 0, "dup": 0, "stray": 0, "force": 0}
    for rk in keys:
        reg = regs[rk]
        segs = [reg["segs"][k] for k in sorted(reg["segs"])]
        shuffle(segs)
        enc, encbd = [], None
        for s in segs + ([reg["bd"]] if reg["bd"] else []):
            bd = s is reg["bd"]
            ver = plan["sver"][n % len(plan["sver"])]
            if bd and dustmod and ver <= 6:
                ver = 7
            if bd and s["ents"]:
                raise AssertionError
            new = ver > 6 or dustmod
            force = plan["force"][n % len(plan["force"])]
            junk = plan["junk"]
            pad = plan["pad"][n % len(plan["pad"])]
            n += 1
            if ver < 8:
                used["old"] += 1
            by_layer = {}
            for l, tx, ty, t in s["tiles"]:
                by_layer.setdefault(l, []).append((tx, ty, t))
            layers = sorted(by_layer.items())
            shuffle(layers)
            dusts = [(tx, ty, t) for tx, ty, t in by_layer.get(19, []) if has_filth(t)]
            shuffle(dusts)
            bx = rk[0] * (16 if bd else 256) + (0 if bd else s["x"] * 16)
            by = rk[1] * (16 if bd else 256) + (0 if bd else s["y"] * 16)
            for l, tl in layers:
                for tx, ty, t in tl:
                    view["btiles" if bd else "tiles"][(l, bx + tx, by + ty)] = t if l == 19 and has_filth(t) else strip_filth(t)
            have = {(tx, ty) for tx, ty, _ in by_layer.get(19, [])}
            for tx, ty in plan["stray"]:
                if (tx, ty) not in have and s["tiles"]:
                    dusts.append((tx, ty, s["tiles"][0][3]))
                    used["stray"] += 1
            props = []
            for pid, l, x, y, p in s["props"]:
                props.append((pid, l, x, y, p))
                if dups and dups[0][0] == "p":
                    _, delta = dups.pop(0)
                    props.insert(0, (pid, (l + 1) % 256, x, y, (p[0] ^ 1,) + p[1:]))
                    used["dup"] += 1
            eprops = []
            for pid, l, x, y, p in props:
                if new:
                    xn, yn = int(x), int(y)
                    fx, fy = float(xn), float(yn)
                    k = p[4]
                else:
                    import math
                    xn, yn = math.floor(x * 8), math.floor(y * 8)
                    fx, fy = xn / 8, yn / 8
                    k = 32
                eprops.append((pid, l, p[0], xn, yn, k, p[1], int(p[2]), int(p[3]), p[5], p[6], p[7], p[8]))
                view["bprops" if bd else "props"][pid] = (l, fx, fy, p[:4] + (k,) + p[5:])
            ents = list(s["ents"])
            if dups and dups[0][0] == "e" and ents:
                dups.pop(0)
                eid, x, y, e = ents[-1]
                ents.insert(0, (eid, x, y, ("entity_x", ("d", ()), 7, 3, True, False, True)))
                used["dup"] += 1
            eents = []
            for eid, x, y, e in ents:
                import math
                from fractions import Fraction
                xn, yn = math.floor(Fraction(x) * 128), math.floor(Fraction(y) * 128)
                eents.append((eid, e[0], xn, yn, e[2], e[3], e[4], e[5], e[6], e[1]))
                view["ents"][eid] = (xn / 128, yn / 128, (e[0], quant(e[1])) + tuple(e[2:]))
            for which, lst in (("p", eprops), ("e", eents)):
                rest = []
                for kind, pos, nid in negs:
                    if kind == which and lst:
                        lst.insert(pos % (len(lst) + 1), (nid,) + (None,) * (12 if which == "p" else 9))
                        used["neg"] += 1
                    else:
                        rest.append((kind, pos, nid))
                negs = rest
            if force:
                used["force"] += 1
            seg = {"version": ver, "x": s["x"], "y": s["y"], "layers": layers, "dusts": dusts, "props": eprops,
                   "ents": eents, "newprops": new, "width": plan["width"], "force": force, "pad": pad,
                   "hi": plan["hi"], "dustpad": plan["dustpad"], "uid": junk[0], "filth": tuple(junk[i % len(junk)] for i in range(4))}
            if bd:
                encbd = seg
            else:
                enc.append(seg)
        out.append({"x": rk[0], "y": rk[1], "segments": enc, "backdrop": encbd, "version": plan["rver"],
                    "zlevel": plan["zlevel"]})
    ids = list(view["props"]) + list(view["bprops"]) + list(view["ents"])
    next_id = max([100] + ids) + 1
    if plan["next_id"] is not None:
        next_id = max(next_id, plan["next_id"])
    m = plan["meta"]
    data = R.encode_level({"version": plan["ver"], "vars": spec["vars"], "sshot": spec["sshot"], "regions": out,
                           "next_id": next_id, "meta_version": m[0], "region_offset": m[1], "prop_uid": m[2],
                           "save_uid": m[3], "region_uid": m[4]})
    used["regions"] = len(out)
    used["next_id"] = next_id
    return data, view, used


def fits(spec):
    """Leaves room for the extra entries of a plan below the format's 65535 per segment."""
    kind, n, seed = spec["bulk"][0][1:]
    return dict(spec, bulk=[("crowd", kind, n if kind == "sshot" else min(n, 65000), seed)])
