"""Model of level transformations: position p -> g(p) * f + (tx, ty), in pixels."""
import math
from fractions import Fraction

from . import geometry as G
from .engine import Violation, check, same
from .model import ENT_TABLE, ETYPE_CLASS

EPS = 1e-5


def matrix(g, tx=0, ty=0, f=1):
    from dustmaker.transform import TxMatrix
    return TxMatrix(((g[0] * f, g[1] * f, tx), (g[2] * f, g[3] * f, ty), (0, 0, 1)))


def angle_image(r, g):
    """Stored 16-bit rotation: clockwise turns add, flips mirror it (see DESIGN.md)."""
    k = {(0, 1): 0, (-1, 0): 1, (0, -1): -2, (1, 0): -1}[(g[2], g[3])]
    r -= 0x4000 * k
    if G.det(g) < 0:
        r = -r
    return r & 0xFFFF


def whole(v, size):
    """Translation in whole tiles (nearest; callers avoid ties)."""
    return math.floor(Fraction(v) / size + Fraction(1, 2))


def is_tie(v, size):
    return (Fraction(v) / size) % 1 == Fraction(1, 2)


def tiles_image(tiles, g, f, tx, ty, size):
    out = {}
    ox, oy = whole(tx, size), whole(ty, size)
    for (l, x, y), t in tiles.items():
        cx, cy = G.cell_image(x, y, g)
        for (dx, dy), nt in G.tile_enlarged(G.tile_image(t, g), f).items():
            out[(l, cx * f + ox + dx, cy * f + oy + dy)] = nt
    return out


class Map:
    def __init__(self, g, f, tx, ty):
        self.g, self.f, self.tx, self.ty = g, f, tx, ty

    def pt(self, x, y):
        a, b = G.app(self.g, (x, y))
        return a * self.f + self.tx, b * self.f + self.ty

    def vec(self, x, y):
        a, b = G.app(self.g, (x, y))
        return a * self.f, b * self.f


def touched_vars(etype, vs, m):
    """{name: (expected spec, default spec or None)}"""
    cls = ETYPE_CLASS.get(etype)
    d = dict(vs[1])
    out = {}
    if cls is None:
        return out

    def arr(name, fn):
        cur = d.get(name, ("a", "v", ()))
        out[name] = (("a", "v", tuple(("v", fn(*e[1])) for e in cur[2])), ("a", "v", ()))
    if cls in ("CheckPoint", "EndZone"):
        arr("trigger_area", m.vec)
    elif cls == "AIController":
        arr("nodes", m.pt)
    elif cls == "DeathZone":
        w, h = d.get("width", ("i", 0))[1], d.get("height", ("i", 0))[1]
        nw, nh = m.vec(w, h)
        out["width"] = (("i", abs(nw)), ("i", 0))
        out["height"] = (("i", abs(nh)), ("i", 0))
    elif cls == "CameraNode":
        for name, dflt in (("zoom_h", 1080), ("width", 520)):
            out[name] = (("i", d.get(name, ("i", dflt))[1] * m.f), ("i", dflt))
    elif cls == "EnemyKey":
        x, y = m.pt(d.get("lastKnowX", ("f", 0.0))[1], d.get("lastKnowY", ("f", 0.0))[1])
        out["lastKnowX"] = (("f", float(x)), ("f", 0.0))
        out["lastKnowY"] = (("f", float(y)), ("f", 0.0))
    if any(a["var"] == "dm_scale" for a in ENT_TABLE[cls]["accessors"].values()):
        out["dm_scale"] = (("f", d.get("dm_scale", ("f", 1.0))[1] * m.f), ("f", 1.0))
    return out


def close_var(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "f":
        return near(a[1], b[1])
    if a[0] == "v":
        return near(a[1][0], b[1][0]) and near(a[1][1], b[1][1])
    if a[0] == "i":
        return a[1] == b[1]
    if a[0] == "a":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(close_var(p, q) for p, q in zip(a[2], b[2]))
    return a == b


def near(a, b):
    return abs(a - b) <= EPS * max(1.0, abs(b) * 1e-7)


def check_vars(got, orig, touched, what):
    gd, od = dict(got[1]), dict(orig[1])
    for k, v in od.items():
        if k in touched:
            continue
        if gd.get(k) != v:
            raise Violation("%s: variable %r is %r, was %r" % (what, k, gd.get(k), v))
    for k in gd:
        if k not in od and k not in touched:
            raise Violation("%s: variable %r appeared" % (what, k))
    for k, (want, dflt) in touched.items():
        g = gd.get(k, dflt)
        if not close_var(g, want):
            raise Violation("%s: variable %r is %r, expected %r" % (what, k, g, want))


def check_level(got, before, g, f, tx, ty):
    """got/before: level views; total map p -> f*g(p) + (tx,ty)."""
    m = Map(g, f, tx, ty)
    same(got["tiles"], tiles_image(before["tiles"], g, f, tx, ty, 48), "tiles")
    same(got["btiles"], tiles_image(before["btiles"], g, f, tx, ty, 768), "backdrop tiles")
    for name in ("props", "bprops"):
        same(list(sorted(got[name])), list(sorted(before[name])), name + " ids")
        for i, (l, x, y, p) in before[name].items():
            gl, gx, gy, gp = got[name][i]
            nx, ny = m.pt(x, y)
            if gl != l or not (near(gx, nx) and near(gy, ny)):
                raise Violation("%s %d at %r, expected layer %d (%r, %r)" % (name, i, (gl, gx, gy), l, nx, ny))
            want = (p[0], angle_image(p[1], g), p[2], p[3] ^ (G.det(g) < 0)) + p[4:]
            same(gp, want, "%s %d" % (name, i))
    same(list(sorted(got["ents"])), list(sorted(before["ents"])), "entity ids")
    for i, (x, y, e) in before["ents"].items():
        gx, gy, ge = got["ents"][i]
        nx, ny = m.pt(x, y)
        if not (near(gx, nx) and near(gy, ny)):
            raise Violation("entity %d (%s) at %r, expected %r" % (i, e[0], (gx, gy), (nx, ny)))
        want = (angle_image(e[2], g), e[3], e[4], e[5] ^ (G.det(g) < 0), e[6])
        same((ge[0],) + tuple(ge[2:]), (e[0],) + want, "entity %d" % i)
        check_vars(ge[1], e[1], touched_vars(e[0], e[1], m), "entity %d (%s)" % (i, e[0]))
    same(got["sshot"], before["sshot"], "thumbnail")
    gv, bv = dict(got["vars"][1]), dict(before["vars"][1])
    starts = {"p%d_%s" % (p, c) for p in range(1, 5) for c in "xy"}
    for p in range(1, 5):
        kx, ky = "p%d_x" % p, "p%d_y" % p
        nx, ny = m.pt(bv.get(kx, ("i", 0))[1], bv.get(ky, ("i", 0))[1])
        for k, n in ((kx, nx), (ky, ny)):
            got_v = gv.get(k, ("i", 0))
            if got_v[0] != "i" or abs(got_v[1] - n) > 0.5:
                raise Violation("player start %s is %r, expected %r" % (k, got_v, n))
    same({k: v for k, v in gv.items() if k not in starts}, {k: v for k, v in bv.items() if k not in starts}, "level variables")
    check(got["bents"] == 0, "backdrop entities appeared")
