"""Independent tile geometry in exact integers.

Unit: half tiles. A shape is its four corner points in the order top-left, top-right, bottom-right,
bottom-left; sides are 0 top, 1 bottom, 2 left, 3 right, and are traversed clockwise (tile on the right hand).
"""

# linear maps as (a, b, c, d): (x, y) -> (a x + b y, c x + d y); y points down, so clockwise quarter turn:
# right (1,0) -> down (0,1), down (0,1) -> left (-1,0)
ID = (1, 0, 0, 1)
CW = (0, -1, 1, 0)
HF = (-1, 0, 0, 1)
VF = (1, 0, 0, -1)


def mul(p, q):
    """p after q"""
    return (p[0] * q[0] + p[1] * q[2], p[0] * q[1] + p[1] * q[3], p[2] * q[0] + p[3] * q[2], p[2] * q[1] + p[3] * q[3])


def app(g, pt):
    return (g[0] * pt[0] + g[1] * pt[1], g[2] * pt[0] + g[3] * pt[1])


def turns(n):
    g = ID
    for _ in range(n % 4):
        g = mul(CW, g)
    return g


D4 = [mul(turns(i), f) for f in (ID, HF) for i in range(4)]


def det(g):
    return g[0] * g[3] - g[1] * g[2]


def inverse(g):
    d = det(g)
    return (g[3] // d, -g[1] // d, -g[2] // d, g[0] // d)


def in_cell(g, pt):
    """Apply g about the centre of the tile (half-tile coordinates 0..2)."""
    x, y = app(g, (pt[0] - 1, pt[1] - 1))
    return (x + 1, y + 1)


def _orbit(base, start):
    """Four clockwise rotations of a polygon given as a point set."""
    return [frozenset(in_cell(turns(i), p) for p in base) for i in range(start, start + 4)]


_BIG = {(0, 0), (2, 1), (2, 2), (0, 2)}  # slants down to the right, missing the upper right wedge
_SMALL = {(0, 1), (2, 2), (0, 2)}
_HALF = {(0, 0), (2, 2), (0, 2)}

POLY = [None] * 21
POLY[0] = frozenset({(0, 0), (2, 0), (2, 2), (0, 2)})
for _i in range(4):
    POLY[1 + 2 * _i] = _orbit(_BIG, _i)[0]
    POLY[2 + 2 * _i] = _orbit(_SMALL, _i)[0]
    POLY[17 + _i] = _orbit(_HALF, _i)[0]
for _i in range(1, 9):  # shapes 9..16 are the mirror images of 1..8
    POLY[_i + 8] = frozenset(in_cell(HF, p) for p in POLY[_i])
SHAPE_OF = {p: i for i, p in enumerate(POLY)}
assert len(SHAPE_OF) == 21


def _cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def _hull(pts):
    """Clockwise order (on screen, y down) of a convex point set."""
    c = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
    import math
    return sorted(pts, key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))


def _edges(shape):
    """side -> (start, end), clockwise, for the edges the shape has (edges of half a tile do not exist).

    Flush edges belong to the side they lie on. A slanted edge belongs to the side it faces: for the slants the side
    opposite to the full flush side along its long axis; for the halves top or bottom."""
    pts = _hull(POLY[shape])
    out = {}
    for i, a in enumerate(pts):
        b = pts[(i + 1) % len(pts)]
        if a[1] == b[1]:
            side = 0 if a[1] == 0 else 1
        elif a[0] == b[0]:
            side = 2 if a[0] == 0 else 3
        else:
            dx, dy = b[0] - a[0], b[1] - a[1]
            # outward normal of a clockwise edge (y down) is (dy, -dx)
            nx, ny = dy, -dx
            if abs(ny) >= abs(nx):
                side = 0 if ny < 0 else 1
            else:
                side = 2 if nx < 0 else 3
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) <= 1:
            continue
        assert side not in out
        out[side] = (a, b)
    return out


EDGES = [_edges(s) for s in range(21)]
BY_ENDS = [{frozenset(e): s for s, e in EDGES[sh].items()} for sh in range(21)]
NEXT = ((0, -1), (0, 1), (-1, 0), (1, 0))
BLANK_EDGE = (False, False, (False, False), (0, 0), 0, False, (False, False), (0, 0))


def flush(shape, side):
    e = EDGES[shape].get(side)
    return e is not None and (e[0][0] == e[1][0] or e[0][1] == e[1][1])


def rev_edge(e):
    return (e[0], e[1], e[2][::-1], (-e[3][1], -e[3][0]), e[4], e[5], e[6][::-1], (-e[7][1], -e[7][0]))


def tile_image(t, g):
    """Tile spec after the linear map g."""
    shape = SHAPE_OF[frozenset(in_cell(g, p) for p in POLY[t[0]])]
    edges = [BLANK_EDGE] * 4
    for side, (a, b) in EDGES[t[0]].items():
        ns = BY_ENDS[shape][frozenset((in_cell(g, a), in_cell(g, b)))]
        e = t[5][side]
        edges[ns] = rev_edge(e) if det(g) < 0 else e
    return (shape,) + t[1:5] + (tuple(edges),)


def cell_image(x, y, g):
    """Cell [x,x+1]x[y,y+1] under g (about the origin)."""
    p, q = app(g, (x, y)), app(g, (x + 1, y + 1))
    return (min(p[0], q[0]), min(p[1], q[1]))


# ---- upscaling ---------------------------------------------------------------------------------

# sample points of a cell, in units of 1/1009 tile, on no edge line of any shape
_U = 1009
_SAMPLES = [(37 + 157 * i, 60 + 151 * j) for i in range(7) for j in range(7)]
# lines through half-tile lattice points with slopes +-1, +-2, +-1/2
_SAMPLES = [(x, y) for x, y in _SAMPLES
            if all(2 * v % _U for v in (x + y, x - y, 2 * x + y, 2 * x - y, x + 2 * y, x - 2 * y))]


def _inside(poly_cw, px, py, unit):
    """Strictly inside convex clockwise polygon (vertices in half tiles), point in 1/unit tiles."""
    for i, a in enumerate(poly_cw):
        b = poly_cw[(i + 1) % len(poly_cw)]
        ax, ay, bx, by = a[0] * unit, a[1] * unit, b[0] * unit, b[1] * unit
        c = (bx - ax) * (2 * py - ay) - (by - ay) * (2 * px - ax)
        assert c != 0, "sample on an edge line"
        if c < 0:
            return False
    return True


HULL = [_hull(POLY[s]) for s in range(21)]
_SIG = {}
for _s in range(21):
    _SIG[tuple(_inside(HULL[_s], x, y, _U) for x, y in _SAMPLES)] = _s
assert len(_SIG) == 21


def enlarged(shape, f):
    """{(dx, dy): shape} covering exactly the shape enlarged f times."""
    key = (shape, f)
    r = _ENL.get(key)
    if r is None:
        r = {}
        poly = [(p[0] * f, p[1] * f) for p in HULL[shape]]
        for dx in range(f):
            for dy in range(f):
                sig = []
                for x, y in _SAMPLES:
                    px, py = dx * _U + x, dy * _U + y
                    ok = True
                    for i, a in enumerate(poly):
                        b = poly[(i + 1) % len(poly)]
                        c = (b[0] - a[0]) * (2 * py - a[1] * _U) - (b[1] - a[1]) * (2 * px - a[0] * _U)
                        if c < 0:
                            ok = False
                            break
                    sig.append(ok)
                if any(sig):
                    r[(dx, dy)] = _SIG[tuple(sig)]
        _ENL[key] = r
    return r


_ENL = {}


def _on_segment(p, a, b):
    return _cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def tile_enlarged(t, f):
    """{(dx, dy): tile} for a tile spec."""
    if f == 1:
        return {(0, 0): t}
    out = {}
    big = {s: ((a[0] * f, a[1] * f), (b[0] * f, b[1] * f)) for s, (a, b) in EDGES[t[0]].items()}
    for (dx, dy), shape in enlarged(t[0], f).items():
        edges = [BLANK_EDGE] * 4
        for side, (a, b) in EDGES[shape].items():
            ga, gb = (a[0] + 2 * dx, a[1] + 2 * dy), (b[0] + 2 * dx, b[1] + 2 * dy)
            src = big.get(side)
            if src is None or not (_on_segment(ga, *src) and _on_segment(gb, *src)):
                continue
            keep = (ga == src[0], gb == src[1])
            e = t[5][side]
            edges[side] = (e[0], e[1], tuple(c and k for c, k in zip(e[2], keep)),
                           tuple(c if k else 0 for c, k in zip(e[3], keep)), e[4], e[5],
                           tuple(c and k for c, k in zip(e[6], keep)),
                           tuple(c if k else 0 for c, k in zip(e[7], keep)))
        out[(dx, dy)] = (shape,) + t[1:5] + (tuple(edges),)
    return out


# ---- automatic edges --------------------------------------------------------------------------


def edge_visibility(tiles, answer):
    """tiles: {(layer,x,y): tile}. Returns ({key: tile}, [asked (layer,x,y,side)])."""
    out, asked = {}, []
    for (layer, x, y), t in tiles.items():
        edges = []
        for side in range(4):
            if side not in EDGES[t[0]]:
                edges.append(BLANK_EDGE)
                continue
            e = t[5][side]
            solid = visible = True
            if flush(t[0], side):
                dx, dy = NEXT[side]
                n = tiles.get((layer, x + dx, y + dy))
                if n is not None and flush(n[0], side ^ 1):
                    solid = False
                    if n[2:5] == t[2:5]:
                        visible = False
                    else:
                        asked.append((layer, x, y, side))
                        visible = answer(layer, x, y, side)
            edges.append((solid, visible) + e[2:])
        out[(layer, x, y)] = t[:5] + (tuple(edges),)
    return out, asked


def edge_caps(tiles):
    """Expected tiles after the cap calculation. Joins are decided by exact geometry."""
    import math
    out, joins = {}, 0
    for (layer, x, y), t in tiles.items():
        edges = []
        for side in range(4):
            e = t[5][side]
            if not e[1]:
                edges.append(e[:2] + BLANK_EDGE[2:])
                continue
            a, b = EDGES[t[0]][side]
            caps, angs, fcaps, fangs = [False, False], [0, 0], [False, False], [0, 0]
            for end in (0, 1):
                p, q = (a, b) if end else (b, a)  # travelling from p to q
                if q[0] == 1 or q[1] == 1:
                    continue  # ends between tile corners
                gq = (2 * x + q[0], 2 * y + q[1])
                d = (q[0] - p[0], q[1] - p[1])
                best = None
                for cx in (gq[0] // 2 - 1, gq[0] // 2):
                    for cy in (gq[1] // 2 - 1, gq[1] // 2):
                        if (cx, cy) == (x, y):
                            continue
                        n = tiles.get((layer, cx, cy))
                        if n is None or n[2:5] != t[2:5] or side not in EDGES[n[0]] or not n[5][side][1]:
                            continue
                        na, nb = EDGES[n[0]][side]
                        np_, nq = (na, nb) if end else (nb, na)
                        if (2 * cx + np_[0], 2 * cy + np_[1]) != gq:
                            continue
                        nd = (nq[0] - np_[0], nq[1] - np_[1])
                        # clockwise on screen (y down) is positive
                        turn = math.atan2(d[0] * nd[1] - d[1] * nd[0], d[0] * nd[0] + d[1] * nd[1])
                        key = turn if end else -turn
                        if best is None or key < best[0]:
                            best = (key, turn, n[5][side])
                if best is None:
                    caps[end] = True
                    fcaps[end] = e[4] != 0
                    continue
                joins += 1
                ang = int(round(math.degrees(best[1]) / 2, 6))
                angs[end] = ang
                if e[4]:
                    if (e[4], e[5]) == (best[2][4], best[2][5]):
                        fangs[end] = ang
                    else:
                        fcaps[end] = True
            edges.append((e[0], e[1], tuple(caps), tuple(angs), e[4], e[5], tuple(fcaps), tuple(fangs)))
        out[(layer, x, y)] = t[:5] + (tuple(edges),)
    return out, joins
