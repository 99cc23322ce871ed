"""View of a level file through the independent decoder."""
from . import refcodec as R
from .engine import Violation
from .model import floaty


def decode(data, what="written file", start=0, exact=True, regions=True):
    try:
        return R.decode_level(data, start, exact, regions)
    except R.RefError as e:
        raise Violation("%s does not follow the format: %s" % (what, e)) from e


def _prop(p):
    pid, layer, sub, x, y, k, rot, fx, fy, pset, group, index, pal = p
    return (layer, x, y, (sub, rot, fx, fy, k, pset, group, index, pal))


def placed(dec):
    """Yields (kind, region, segment or None, key, value); segment None = backdrop."""
    for reg in dec["regions"]:
        rk = (reg["x"], reg["y"])
        for seg in reg["segments"] + ([reg["backdrop"]] if reg["backdrop"] is not None else []):
            bd = seg is reg["backdrop"]
            sk = None if bd else (seg["x"], seg["y"])
            bx = rk[0] * 16 if bd else rk[0] * 256 + seg["x"] * 16
            by = rk[1] * 16 if bd else rk[1] * 256 + seg["y"] * 16
            dust = {}
            for tx, ty, d in seg["dusts"]:
                if (tx, ty) in dust:
                    raise Violation("two filth records for one tile")
                dust[(tx, ty)] = d
            layers = [l for l, _ in seg["layers"]]
            if len(set(layers)) != len(layers):
                raise Violation("layer written twice in one segment")
            for layer, tiles in seg["layers"]:
                for tx, ty, t in tiles:
                    if layer == 19 and (tx, ty) in dust:
                        t = R.dust_from(t, dust.pop((tx, ty)))
                    yield ("btile" if bd else "tile", rk, sk, (layer, bx + tx, by + ty), t)
            if dust:
                raise Violation("filth stored for missing tiles %r" % (sorted(dust),))
            for p in seg["props"]:
                yield ("bprop" if bd else "prop", rk, sk, p[0], _prop(p))
            for eid, etype, x, y, rot, layer, fx, fy, vis, vs in seg["ents"]:
                yield ("bent" if bd else "ent", rk, sk, eid,
                       (x / 128, y / 128, (etype, floaty(vs), rot, layer, fx, fy, vis)))


NAMES = {"tile": "tiles", "prop": "props", "ent": "ents", "btile": "btiles", "bprop": "bprops"}


def view(dec):
    """Same shape as model.levelview."""
    out = {v: {} for v in NAMES.values()}
    out["bents"] = 0
    for kind, _, _, key, val in placed(dec):
        if kind == "bent":
            out["bents"] += 1
            continue
        d = out[NAMES[kind]]
        if key in d:
            raise Violation("%s %r written twice" % (kind, key))
        d[key] = val
    out["sshot"] = dec["sshot"]
    out["vars"] = floaty(dec["vars"])
    return out
