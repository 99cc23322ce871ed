"""Specs (plain literals) <-> dustmaker objects, through the public API only.

tile   (shape, flags, sset, stile, pal, (edge,)*4)          sides: top, bottom, left, right
edge   (solid, visible, caps, angles, fset, fspike, fcaps, fangles)
prop   (sub, rot, fx, fy, k, set, group, index, pal)         scale = 50 ** ((k - 32) / 24)
ent    (etype, vars, rot, layer, fx, fy, visible)            vars: ('d', ((key, var), ...))
level  {"tiles": [(layer,x,y,tile)], "props": [(id,layer,x,y,prop)], "ents": [(id,x,y,ent)],
        "btiles": [...], "bprops": [...], "vars": ('d',...), "sshot": bytes}
"""
import json
import math
import os
from fractions import Fraction

from dustmaker import entity as E
from dustmaker import variable as V
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet

from .engine import observing, Violation

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "entity_table.json")) as _f:
    _T = json.load(_f)
ENT_TABLE = _T["entities"]
LEVEL_ACC = _T["level"]
ETYPE_CLASS = {v["etype"]: k for k, v in ENT_TABLE.items() if v["etype"]}
FILTH = {v["etype"]: v["filth"] for v in ENT_TABLE.values() if v["etype"]}
ETYPES = sorted(ETYPE_CLASS)
DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}

BLANK_EDGE = (False, False, (False, False), (0, 0), 0, False, (False, False), (0, 0))

# ---- variables -------------------------------------------------------------------------------

VCLS = {"b": V.VariableBool, "i": V.VariableInt, "u": V.VariableUInt, "f": V.VariableFloat,
        "s": V.VariableString, "v": V.VariableVec2, "d": V.VariableStruct, "a": V.VariableArray}
VTAG = {v: k for k, v in VCLS.items()}


def mkvar(v):
    t = v[0]
    if t == "d":
        return V.VariableStruct({k: mkvar(x) for k, x in v[1]})
    if t == "a":
        return V.VariableArray(VCLS[v[1]], [mkvar(x) for x in v[2]])
    return VCLS[t](v[1])


def mkvars(d):
    return {k: mkvar(x) for k, x in d[1]}


def vview(var):
    """Variable -> spec, insisting on exact Python types of the documented values."""
    t = VTAG.get(type(var))
    if t is None:
        raise Violation("not a known variable class: %r" % (var,))
    val = var.value
    if t == "d":
        if type(val) is not dict:
            raise Violation("struct value is %r" % type(val))
        return ("d", tuple((k, vview(x)) for k, x in val.items()))
    if t == "a":
        et = VTAG.get(var.element_type)
        elems = val[1]
        for e in elems:
            if type(e) is not var.element_type:
                raise Violation("array of %s holds %r" % (var.element_type.__name__, e))
        return ("a", et, tuple(vview(x) for x in elems))
    ok = {"b": bool, "i": int, "u": int, "f": float, "s": bytes, "v": tuple}[t]
    if not isinstance(val, ok) or (t in "iu" and isinstance(val, bool)):
        raise Violation("%s variable holds %r" % (t, val))
    if t == "v" and (len(val) != 2 or not all(isinstance(c, float) for c in val)):
        raise Violation("vec2 variable holds %r" % (val,))
    if t in "iu":
        val = int(val)
    return (t, val)


def varsview(d):
    return ("d", tuple((k, vview(x)) for k, x in d.items()))


def unordered(v):
    """Struct key order removed (for comparisons where order is not promised)."""
    if v[0] == "d":
        return ("d", frozenset((k, unordered(x)) for k, x in v[1]))
    if v[0] == "a":
        return ("a", v[1], tuple(unordered(x) for x in v[2]))
    return v


def quant_float(x):
    return float(Fraction(math.floor(Fraction(x) * (1 << 31)), 1 << 31))


def quant(v):
    """What the format preserves of a variable spec."""
    t = v[0]
    if t == "f":
        return ("f", quant_float(v[1]))
    if t == "v":
        return ("v", (quant_float(v[1][0]), quant_float(v[1][1])))
    if t == "d":
        return ("d", tuple((k, quant(x)) for k, x in v[1]))
    if t == "a":
        return ("a", v[1], tuple(quant(x) for x in v[2]))
    return v


def floaty(v):
    """Ref-decoder output (Fractions) -> floats."""
    t = v[0]
    if t == "f":
        return ("f", float(v[1]))
    if t == "v":
        return ("v", (float(v[1][0]), float(v[1][1])))
    if t == "d":
        return ("d", tuple((k, floaty(x)) for k, x in v[1]))
    if t == "a":
        return ("a", v[1], tuple(floaty(x) for x in v[2]))
    return v


# ---- tiles -----------------------------------------------------------------------------------


def mkedge(e):
    return TileEdgeData(solid=e[0], visible=e[1], caps=tuple(e[2]), angles=tuple(e[3]),
                        filth_sprite_set=TileSpriteSet(e[4]), filth_spike=e[5], filth_caps=tuple(e[6]),
                        filth_angles=tuple(e[7]))


def mktile(t):
    tile = Tile(TileShape(t[0]), tile_flags=t[1], sprite_set=TileSpriteSet(t[2]), sprite_tile=t[3], sprite_palette=t[4])
    for i, e in enumerate(t[5]):  # in place, so that edges shared between tiles show
        ed = tile.edge_data[i]
        ed.solid, ed.visible, ed.caps, ed.angles = e[0], e[1], tuple(e[2]), tuple(e[3])
        ed.filth_sprite_set, ed.filth_spike, ed.filth_caps, ed.filth_angles = TileSpriteSet(e[4]), e[5], tuple(e[6]), tuple(e[7])
    return tile


def _b(v):
    if not isinstance(v, (bool, int)) or v not in (0, 1):
        raise Violation("expected a boolean, got %r" % (v,))
    return bool(v)


def _i(v):
    if isinstance(v, bool) or not isinstance(v, int):
        raise Violation("expected an int, got %r" % (v,))
    return int(v)


def edgeview(e):
    return (_b(e.solid), _b(e.visible), tuple(_b(x) for x in e.caps), tuple(_i(x) for x in e.angles),
            _i(e.filth_sprite_set), _b(e.filth_spike), tuple(_b(x) for x in e.filth_caps),
            tuple(_i(x) for x in e.filth_angles))


def tileview(t):
    if len(t.edge_data) != 4:
        raise Violation("tile has %d edges" % len(t.edge_data))
    return (_i(t.shape), _i(t.tile_flags), _i(t.sprite_set), _i(t.sprite_tile), _i(t.sprite_palette),
            tuple(edgeview(e) for e in t.edge_data))


# ---- props and entities --------------------------------------------------------------------------


def kscale(k):
    return 50.0 ** ((k - 32.0) / 24.0)


def mkprop(p):
    return Prop(p[0], p[1], p[2], p[3], kscale(p[4]), p[5], p[6], p[7], p[8])


def scale_k(s):
    if not s > 0:
        raise Violation("prop scale %r" % (s,))
    x = math.log(s) / math.log(50.0) * 24.0 + 32
    k = round(x)
    if abs(x - k) > 1e-6:
        raise Violation("prop scale %r is not a step of the format" % (s,))
    return k


def propview(p):
    return (_i(p.layer_sub), _i(p.rotation), _b(p.flip_x), _b(p.flip_y), scale_k(p.scale), _i(p.prop_set),
            _i(p.prop_group), _i(p.prop_index), _i(p.palette))


def mkent(e):
    etype, vs, rot, layer, fx, fy, vis = e
    cls = ETYPE_CLASS.get(etype)
    ent = getattr(E, cls if cls else "Entity")(mkvars(vs), rot, layer, fx, fy, vis)
    if not cls:
        ent.etype = etype
    return ent


def entview(e, classes=True):
    cls = type(e).__name__
    want = ETYPE_CLASS.get(e.etype, "Entity")
    if classes and cls != want:
        raise Violation("entity of type %r has class %s, expected %s" % (e.etype, cls, want))
    return (e.etype, varsview(e.variables), _i(e.rotation), _i(e.layer), _b(e.flip_x), _b(e.flip_y), _b(e.visible))


# ---- levels ----------------------------------------------------------------------------------


def _lcg(seed):
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    while True:
        x = (x * 1103515245 + 12345) & 0xFFFFFFFF
        yield x >> 8


def expand(spec):
    """Expands bulk items (compact descriptions of large content) into explicit ones."""
    if not spec.get("bulk"):
        return spec
    from . import gen
    spec = {k: (list(v) if isinstance(v, list) else v) for k, v in spec.items()}
    taken = {(l, x, y) for l, x, y, _ in spec["tiles"]}
    pids = {p[0] for p in spec["props"]} | {p[0] for p in spec["bprops"]}
    eids = {e[0] for e in spec["ents"]}
    for b in spec["bulk"]:
        r = _lcg(b[-1])
        if b[0] == "tiles":
            _, layer, x0, y0, w, h, _seed = b
            for i in range(w):
                for j in range(h):
                    if (layer, x0 + i, y0 + j) not in taken:
                        taken.add((layer, x0 + i, y0 + j))
                        data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(15))
                        spec["tiles"].append((layer, x0 + i, y0 + j, gen.tile_of(data)))
        elif b[0] in ("props", "bprops"):
            _, n, x0, y0, seed = b
            base = (1000, 100, 50000, 1, 1000)[seed % 5]
            for i in range(n):
                pid = base + (n - 1 - i if seed % 3 == 1 else i)
                if pid in pids:
                    continue
                pids.add(pid)
                data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(6))
                spec[b[0]].append((pid, next(r) % 21, x0 + next(r) % 700, y0 + next(r) % 700, gen.prop_of(data)))
        elif b[0] == "ents":
            _, n, x0, y0, seed = b
            base = (200000, 100, 200000, 1)[seed % 4]
            for i in range(n):
                eid = base + (n - 1 - i if seed % 3 == 1 else i)
                if eid in eids:
                    continue
                eids.add(eid)
                et = ETYPES[(next(r) if seed % 4 != 3 else seed) % len(ETYPES)]
                spec["ents"].append((eid, x0 + next(r) % 700 + next(r) % 128 / 128, y0 + next(r) % 700,
                                     (et, ("d", (("n", ("i", i)),)), next(r) & 0xFFFF, next(r) % 21, bool(next(r) & 1),
                                      bool(next(r) & 1), bool(next(r) & 1))))
        elif b[0] == "filthy":
            _, x0, y0, mode, seed = b
            for i in range(256):
                x, y = x0 + i % 16, y0 + i // 16
                if (19, x, y) in taken:
                    continue
                taken.add((19, x, y))
                data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(15))
                tl = gen.tile_of(data)
                e = list(tl[5])
                if mode == 4:  # dustblocks
                    tl = tl[:2] + (seed % 5 + 1, DUSTBLOCK[seed % 5 + 1]) + tl[4:]
                elif mode == 3:  # dust on every edge
                    e = [v[:4] + (next(r) % 7 + 1, False) + v[6:] for v in e]
                elif mode == 2 and i == seed % 256:
                    e = [v[:4] + BLANK_EDGE[4:] for v in e]
                else:
                    k = next(r) % 4
                    e[k] = e[k][:4] + (next(r) % 7 + 1,) + e[k][5:]
                if mode != 1 or i != seed % 256:
                    spec["tiles"].append((19, x, y, tl[:5] + (tuple(e),)))
        elif b[0] == "layers":
            _, n, kind, x, y, seed = b
            used = {(l, x, y) for l, x, y, _ in spec[kind]}
            for i in range(n):
                for dx in range(1 + seed % 2):
                    k = ((i * 8 + seed) % 21, x + dx, y)
                    if k not in used:
                        used.add(k)
                        data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(15))
                        spec[kind].append(k + (gen.tile_of(data),))
                        if kind == "tiles":
                            taken.add(k)
        elif b[0] == "sparse":
            _, n, step, width, kind, seed = b
            for i in range(n):
                c = i * 211 % 307 if seed % 3 else i  # 307 is prime: every cell at most once
                x, y = (c % width - width // 2) * step + next(r) % 16, (c // width - 2) * step + next(r) % 16
                if kind == "tiles":
                    if (19, x, y) not in taken:
                        taken.add((19, x, y))
                        data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(15))
                        spec["tiles"].append((19, x, y, gen.tile_of(data)))
                elif kind == "props":
                    pid = 3000 + (i * 17 % 307 if seed & 1 else i)
                    if pid not in pids:
                        pids.add(pid)
                        data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(6))
                        spec["props"].append((pid, next(r) % 21, x * 48 + 5, y * 48 + 7, gen.prop_of(data)))
                else:
                    eid = 5000 + (i * 17 % 307 if seed & 1 else i)
                    if eid not in eids:
                        eids.add(eid)
                        spec["ents"].append((eid, x * 48 + 5.5, y * 48 + 7.25, (ETYPES[next(r) % len(ETYPES)], ("d", ()),
                                             next(r) & 0xFFFF, next(r) % 21, bool(next(r) & 1), bool(next(r) & 1), True)))
        elif b[0] == "region":
            _, rx, ry, missing, kind, seed = b
            for i in range(256):
                c = (i * 149 + seed) % 256 if seed % 3 else i
                if i >= 256 - missing:
                    break
                x, y = rx * 256 + c % 16 * 16 + next(r) % 16, ry * 256 + c // 16 * 16 + next(r) % 16
                if kind == "tiles":
                    if (19, x, y) not in taken:
                        taken.add((19, x, y))
                        data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(15))
                        spec["tiles"].append((19, x, y, gen.tile_of(data)))
                else:
                    pid = 7000 + i
                    if pid not in pids:
                        pids.add(pid)
                        data = b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(6))
                        spec["props"].append((pid, next(r) % 21, x * 48 + 5, y * 48 + 7, gen.prop_of(data)))
        elif b[0] == "crowd":
            _, kind, n, seed = b
            if kind == "sshot":
                spec["sshot"] = gen.pattern(n, seed % 10)
                continue
            pool = [b"".join(next(r).to_bytes(4, "little")[:3] for _ in range(15)) for _ in range(7)]
            tpool, ppool = [gen.tile_of(d) for d in pool], [gen.prop_of(d) for d in pool]
            x0, y0 = ((0, 0), (-768, 0), (768 * 15, -768), (-768 * 17, 768 * 20))[seed % 4]
            n = min(n, 65535 - len(spec["ents"] if kind in ("ents", "names") else spec["props"] + spec["bprops"]))
            for i in range(n):
                a, c = i % 7, i % 768
                if kind in ("regions", "bregions"):
                    # the regions of a square, in no particular order
                    k = (i * 641 + seed) % 1301
                    x, y = (k % 37 - 18) * 256 + i % 256, (k // 37 - 18) * 256 + seed % 256
                    if kind == "bregions":
                        if (19, x // 16, y // 16) not in [v[:3] for v in spec["btiles"][:8]]:
                            spec["btiles"].append((19, x // 16, y // 16, tpool[a]))
                    elif (19, x, y) not in taken:
                        taken.add((19, x, y))
                        spec["tiles"].append((19, x, y, tpool[a]))
                elif kind in ("props", "bprops"):
                    if 1000 + i not in pids:
                        pids.add(1000 + i)
                        spec[kind].append((1000 + i, i % 21, x0 + c, y0 + (i * 5 + seed) % 768, ppool[a]))
                elif 200000 + i not in eids:
                    eids.add(200000 + i)
                    spec["ents"].append((200000 + i, x0 + c + a / 8, y0 + (i * 5 + seed) % 768,
                                         ("z_n%x" % i if kind == "names" else ETYPES[(i if seed % 2 else seed) % len(ETYPES)], ("d", ()),
                                          i & 0xFFFF, i % 21, i % 2 == 0, i % 3 == 0, i % 5 != 0)))
        elif b[0] == "vars":
            _, n, _seed = b
            keys = {k for k, _ in spec["vars"][1]}
            spec["vars"] = ("d", spec["vars"][1] + tuple(("bulk%d" % i, ("u", next(r))) for i in range(n)
                                                         if "bulk%d" % i not in keys))
    del spec["bulk"]
    return spec


def mklevel(spec):
    lv = Level()
    lv.variables = mkvars(spec["vars"])
    lv.sshot = spec["sshot"]
    for layer, x, y, t in spec["tiles"]:
        lv.tiles[(layer, x, y)] = mktile(t)
    for pid, layer, x, y, p in spec["props"]:
        lv.add_prop(layer, x, y, mkprop(p), pid)
    for eid, x, y, e in spec["ents"]:
        lv.add_entity(x, y, mkent(e), eid)
    for layer, x, y, t in spec["btiles"]:
        lv.backdrop.tiles[(layer, x, y)] = mktile(t)
    for pid, layer, x, y, p in spec["bprops"]:
        lv.backdrop.add_prop(layer, x, y, mkprop(p), pid)
    return lv


def levelview(lv, classes=True, variables=True):
    """Canonical view of everything a level holds."""
    with observing("level"):
        if lv.backdrop is None or lv.parent is not None:
            raise Violation("top level lost its backdrop")
        bd = lv.backdrop
        if bd.parent is not lv:
            raise Violation("backdrop belongs to another level")
        out = {
            "tiles": {k: tileview(t) for k, t in lv.tiles.items()},
            "props": {k: (l, x, y, propview(p)) for k, (l, x, y, p) in lv.props.items()},
            "ents": {k: (x, y, entview(e, classes)) for k, (x, y, e) in lv.entities.items()},
            "btiles": {k: tileview(t) for k, t in bd.tiles.items()},
            "bprops": {k: (l, x, y, propview(p)) for k, (l, x, y, p) in bd.props.items()},
            "bents": len(bd.entities),
            "sshot": bytes(lv.sshot),
        }
        if variables:
            out["vars"] = varsview(lv.variables)
        for k in list(out["tiles"]) + list(out["btiles"]):
            if not all(type(c) is int for c in k):
                raise Violation("tile key %r" % (k,))
        return out


def q128(x):
    return math.floor(Fraction(x) * 128) / 128


def strip_filth(t):
    return t[:5] + (tuple(e[:4] + BLANK_EDGE[4:] for e in t[5]),)


def has_filth(t):
    return any(e[4] for e in t[5])


def ptrunc(x):
    return float(int(x))


def specview(spec):
    """View of the level exactly as specified (before any loss)."""
    return {
        "tiles": {(l, x, y): t for l, x, y, t in spec["tiles"]},
        "props": {i: (l, x, y, p) for i, l, x, y, p in spec["props"]},
        "ents": {i: (x, y, e) for i, x, y, e in spec["ents"]},
        "btiles": {(l, x, y): t for l, x, y, t in spec["btiles"]},
        "bprops": {i: (l, x, y, p) for i, l, x, y, p in spec["bprops"]},
        "bents": 0,
        "sshot": spec["sshot"],
        "vars": spec["vars"],
    }


def lossy(view):
    """What a file preserves of a level view."""
    def tl(k, t):
        return t if k[0] == 19 and has_filth(t) else strip_filth(t)
    return {
        "tiles": {k: tl(k, t) for k, t in view["tiles"].items()},
        "props": {i: (l, ptrunc(x), ptrunc(y), p) for i, (l, x, y, p) in view["props"].items()},
        "ents": {i: (q128(x), q128(y), (e[0], quant(e[1])) + tuple(e[2:])) for i, (x, y, e) in view["ents"].items()},
        "btiles": {k: tl(k, t) for k, t in view["btiles"].items()},
        "bprops": {i: (l, ptrunc(x), ptrunc(y), p) for i, (l, x, y, p) in view["bprops"].items()},
        "bents": 0,
        "sshot": view["sshot"],
        "vars": quant(view["vars"]),
    }
