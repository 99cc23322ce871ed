"""Independent implementation of the Dustforce binary formats (no code shared with dustmaker).

Variables are tagged tuples:
  ('b',bool) ('i',int) ('u',int) ('f',float) ('s',bytes) ('v',(float,float))
  ('d',((key,var),...)) ('a',tag,(var,...))
"""
import math
import zlib
from fractions import Fraction

ALPHA6 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
CODE6 = {c: i for i, c in enumerate(ALPHA6)}
TAGS = {"b": 1, "i": 2, "u": 3, "f": 4, "s": 5, "v": 10, "d": 14, "a": 15}
UNTAG = {v: k for k, v in TAGS.items()}
CHUNK = 65535


class RefError(Exception):
    """The bytes do not follow the format."""


def need(cond, msg, *a):
    if not cond:
        raise RefError(msg % a if a else msg)


class BW:
    def __init__(self):
        self.buf, self.acc, self.n = bytearray(), 0, 0

    def put(self, bits, val):
        self.acc |= (val & ((1 << bits) - 1)) << self.n
        self.n += bits
        k = self.n >> 3
        if k:
            self.buf += (self.acc & ((1 << 8 * k) - 1)).to_bytes(k, "little")
            self.acc >>= 8 * k
            self.n &= 7
        return self

    def raw(self, data):
        if self.n == 0:
            self.buf += data
        else:
            self.put(8 * len(data), int.from_bytes(data, "little"))
        return self

    def align(self):
        if self.n:
            self.buf.append(self.acc)
            self.acc = self.n = 0
        return self

    def tell(self):
        return len(self.buf) * 8 + self.n

    def done(self):
        self.align()
        return bytes(self.buf)


class BR:
    def __init__(self, data, pos=0):
        self.data, self.pos = data, pos

    def get(self, bits, signed=False):
        lo, hi = self.pos >> 3, (self.pos + bits + 7) >> 3
        need(hi <= len(self.data), "read of %d bits at %d past the end", bits, self.pos)
        v = (int.from_bytes(self.data[lo:hi], "little") >> (self.pos & 7)) & ((1 << bits) - 1)
        self.pos += bits
        if signed and bits and v >> (bits - 1):
            v -= 1 << bits
        return v

    def raw(self, n):
        need(self.pos + 8 * n <= 8 * len(self.data), "read of %d bytes at bit %d past the end", n, self.pos)
        if self.pos & 7 == 0:
            p = self.pos >> 3
            self.pos += 8 * n
            return bytes(self.data[p:p + n])
        return self.get(8 * n).to_bytes(n, "little")

    def align(self):
        self.pos = (self.pos + 7) & ~7

    def zero_align(self):
        k = -self.pos % 8
        need(self.get(k) == 0, "non-zero padding")


# ---- fixed point ---------------------------------------------------------------------------


def fixed_candidates(x, fbits):
    """Legal fixed-point numerators for x: floor(x * 2^(fbits-1)), plus the next one when the fraction of x
    is not a double (a negative x close to zero)."""
    q = Fraction(x) * (1 << (fbits - 1))
    fl = math.floor(q)
    out = [fl]
    if isinstance(x, float) and Fraction(x - math.floor(x)) != Fraction(x) - math.floor(x):
        out.append(fl + 1)
    return out


def put_fixed(w, ibits, fbits, num):
    """num is the numerator over 2^(fbits-1)."""
    unit = 1 << (fbits - 1)
    ip, fp = divmod(num, unit)
    w.put(1, 1 if num < 0 else 0)
    w.put(ibits - 1, abs(ip))
    w.put(fbits, fp)


def get_fixed(r, ibits, fbits):
    sgn = r.get(1)
    ip = r.get(ibits - 1)
    fp = r.get(fbits)
    unit = 1 << (fbits - 1)
    return (-ip if sgn else ip) * unit + fp


def put_str6(w, s):
    w.put(6, len(s))
    for c in s:
        w.put(6, CODE6[c])


def get_str6(r):
    return "".join(ALPHA6[r.get(6)] for _ in range(r.get(6)))


# ---- variables -------------------------------------------------------------------------------


def fnum(x):
    return math.floor(Fraction(x) * (1 << 31))


def put_var(w, v):
    t = v[0]
    if t == "b":
        w.put(1, 1 if v[1] else 0)
    elif t in "iu":
        w.put(32, v[1])
    elif t == "f":
        put_fixed(w, 32, 32, fnum(v[1]))
    elif t == "v":
        put_fixed(w, 32, 32, fnum(v[1][0]))
        put_fixed(w, 32, 32, fnum(v[1][1]))
    elif t == "s":
        need(len(v[1]) <= CHUNK, "string too long")
        w.put(16, len(v[1]))
        w.raw(v[1])
    elif t == "d":
        for k, x in v[1]:
            parts = [x]
            if x[0] == "s":
                parts = [("s", x[1][i * CHUNK:(i + 1) * CHUNK]) for i in range(1 + len(x[1]) // CHUNK)]
            for part in parts:
                w.put(4, TAGS[part[0]])
                put_str6(w, k)
                put_var(w, part)
        w.put(4, 0)
    elif t == "a":
        parts = []
        for x in v[2]:
            if v[1] == "s":
                parts += [("s", x[1][i * CHUNK:(i + 1) * CHUNK]) for i in range(1 + len(x[1]) // CHUNK)]
            else:
                parts.append(x)
        need(len(parts) <= 65535, "array too long")
        w.put(4, TAGS[v[1]])
        w.put(16, len(parts))
        for x in parts:
            put_var(w, x)
    else:
        raise RefError("bad tag %r" % (t,))


def get_var(r, tag):
    t = UNTAG.get(tag)
    need(t is not None, "unknown variable type %d", tag)
    if t == "b":
        return ("b", bool(r.get(1)))
    if t == "i":
        return ("i", r.get(32, True))
    if t == "u":
        return ("u", r.get(32))
    if t == "f":
        return ("f", Fraction(get_fixed(r, 32, 32), 1 << 31))
    if t == "v":
        return ("v", (Fraction(get_fixed(r, 32, 32), 1 << 31), Fraction(get_fixed(r, 32, 32), 1 << 31)))
    if t == "s":
        return ("s", r.raw(r.get(16)))
    if t == "a":
        et = r.get(4)
        n = r.get(16)
        need(et in UNTAG, "unknown element type %d", et)
        items = [get_var(r, et) for _ in range(n)]
        if UNTAG[et] == "s":
            joined, cur, open_ = [], b"", False
            for _, part in items:
                cur += part
                open_ = len(part) == CHUNK
                if not open_:
                    joined.append(("s", cur))
                    cur = b""
            if open_:
                joined.append(("s", cur))
            items = joined
        return ("a", UNTAG[et], tuple(items))
    out = []
    while True:
        tag = r.get(4)
        if tag == 0:
            return ("d", tuple(out))
        k = get_str6(r)
        v = get_var(r, tag)
        if v[0] == "s":
            while len(v[1]) and len(v[1]) % CHUNK == 0:
                t2 = r.get(4)
                need(t2 == TAGS["s"], "string continuation expected")
                need(get_str6(r) == k, "continuation under another key")
                part = get_var(r, t2)
                v = ("s", v[1] + part[1])
                if len(part[1]) < CHUNK:
                    break
        out.append((k, v))


# ---- tiles -----------------------------------------------------------------------------------
# tile: (shape, flags, sset, stile, pal, edges) ; edge: (solid, visible, caps, angles, fset, fspike, fcaps, fangles)
# edges indexed top, bottom, left, right; pairs are clockwise in the model. In the file bottom and left pairs
# are stored in the opposite order.


def sw(side, pair):
    return (pair[1], pair[0]) if side in (1, 2) else (pair[0], pair[1])


def tile_bytes(tile):
    shape, flags, sset, stile, pal, edges = tile
    solid = vis = caps = 0
    ang = []
    for s, e in enumerate(edges):
        solid |= bool(e[0]) << s
        vis |= bool(e[1]) << s
        c = sw(s, e[2])
        caps |= (bool(c[0]) << 2 * s) | (bool(c[1]) << (2 * s + 1))
        ang += [a & 0xFF for a in sw(s, e[3])]
    return bytes([solid | vis << 4, caps] + ang + [sset | pal << 4, stile])


def tile_from(shape, flags, data):
    edges = []
    for s in range(4):
        caps = sw(s, (bool(data[1] >> 2 * s & 1), bool(data[1] >> (2 * s + 1) & 1)))
        ang = sw(s, tuple(a - 256 if a > 127 else a for a in data[2 + 2 * s:4 + 2 * s]))
        edges.append((bool(data[0] >> s & 1), bool(data[0] >> (4 + s) & 1), caps, ang,
                      0, False, (False, False), (0, 0)))
    return (shape, flags, data[10] & 15, data[11], data[10] >> 4, tuple(edges))


def dust_bytes(tile):
    n, caps, ang = 0, 0, []
    for s, e in enumerate(tile[5]):
        n |= (e[4] | (8 if e[5] else 0)) << 4 * s
        c = sw(s, e[6])
        caps |= (bool(c[0]) << 2 * s) | (bool(c[1]) << (2 * s + 1))
        ang += [a & 0xFF for a in sw(s, e[7])]
    return n.to_bytes(2, "little") + bytes(ang) + bytes([caps, 0])


def dust_from(tile, data):
    n = int.from_bytes(data[:2], "little")
    edges = []
    for s, e in enumerate(tile[5]):
        v = n >> 4 * s & 15
        caps = sw(s, (bool(data[10] >> 2 * s & 1), bool(data[10] >> (2 * s + 1) & 1)))
        ang = sw(s, tuple(a - 256 if a > 127 else a for a in data[2 + 2 * s:4 + 2 * s]))
        edges.append(e[:4] + (v & 7, bool(v & 8), caps, ang))
    return tile[:5] + (tuple(edges),)


# ---- segments ----------------------------------------------------------------------------------
# prop: (id, layer, sub, x_num, y_num, k, rot, fx, fy, set, group, index, palette)
#   new style: x_num whole pixels; old style: x_num over 8 (fixed 28.4)
# entity: (id, etype, x_num, y_num (over 128), rot, layer, fx, fy, visible, varsdict)


def put_prop(w, p, new, hi=0):
    pid, layer, sub, x, y, k, rot, fx, fy, pset, group, index, pal = p
    w.put(32, pid)
    if pid < 0:
        return
    w.put(8, layer).put(8, sub)
    if new:
        xs, ys = k // 7 ^ 4, k % 7 ^ 4
        for v, s in ((x, xs), (y, ys)):
            w.put(1, 1 if v < 0 else 0).put(27, abs(v)).put(4, s | hi & 8)
            hi <<= 1
    else:
        put_fixed(w, 28, 4, x)
        put_fixed(w, 28, 4, y)
    w.put(16, rot).put(1, fx).put(1, fy).put(8, pset).put(12, group).put(12, index).put(8, pal)


def get_prop(r, new):
    pid = r.get(32, True)
    if pid < 0:
        return None
    layer, sub = r.get(8), r.get(8)
    k = 32
    if new:
        vals = []
        for _ in range(2):
            sgn = r.get(1)
            mag = r.get(27)
            s = (r.get(4) & 7) ^ 4
            vals.append((-mag if sgn else mag, s))
        x, y = vals[0][0], vals[1][0]
        k = vals[0][1] * 7 + vals[1][1]
    else:
        x, y = get_fixed(r, 28, 4), get_fixed(r, 28, 4)
    rot = r.get(16)
    fx, fy = bool(r.get(1)), bool(r.get(1))
    return (pid, layer, sub, x, y, k, rot, fx, fy, r.get(8), r.get(12), r.get(12), r.get(8))


def extended(etype):
    return etype.startswith("z_") or etype == "entity"


def encode_segment(seg):
    """seg: dict version,x,y, layers [(layer,[(tx,ty,tile)])], dusts [(tx,ty,tile)], props, ents, uid, filth(4),
    width, force flags (set), pad (trailing bytes)."""
    ver = seg.get("version", 8)
    body = BW()
    flags = seg.get("extra_flags", 0)
    force = seg.get("force", ())
    if seg["layers"] or 1 in force:
        flags |= 1
        body.put(8, len(seg["layers"]))
        for layer, tiles in seg["layers"]:
            body.put(8, layer).put(10, len(tiles))
            for tx, ty, t in tiles:
                body.put(5, tx).put(5, ty).put(5, t[0]).put(3, t[1])
                body.raw(tile_bytes(t))
    if seg["dusts"] or 2 in force:
        flags |= 2
        body.put(10, len(seg["dusts"]))
        for tx, ty, t in seg["dusts"]:
            body.put(5, tx).put(5, ty)
            body.raw(dust_bytes(t)[:11] + bytes([seg.get("dustpad", 0)]))
    if seg["props"] or 8 in force:
        flags |= 8
        body.put(16, len(seg["props"]))
        for p in seg["props"]:
            put_prop(body, p, seg["newprops"], seg.get("hi", 0))
    if seg["ents"] or 4 in force:
        flags |= 4
        body.put(16, len(seg["ents"]))
        names = BW()
        for e in seg["ents"]:
            eid, etype, x, y, rot, layer, fx, fy, vis, vs = e
            body.put(32, eid)
            if eid < 0:
                continue
            if ver > 7 and extended(etype):
                put_str6(body, "entity")
                put_str6(names, etype)
            else:
                put_str6(body, etype)
            put_fixed(body, 32, 8, x)
            put_fixed(body, 32, 8, y)
            body.put(16, rot).put(8, layer).put(1, 0 if fx else 1).put(1, 0 if fy else 1).put(1, 1 if vis else 0)
            put_var(body, vs)
        if ver > 7:
            npos = body.tell()
            body.raw(names.done())
            body.raw(bytes(seg.get("pad", 0)))
            body.align()
            body.put(32, body.tell() - npos)
    body.align()
    if not (flags & 4 and ver > 7):
        body.raw(bytes(seg.get("pad", 0)))
    h = BW()
    hlen = 13 + (8 if ver > 4 else 0) + (4 if ver > 5 else 0)
    b = body.done()
    h.put(32, hlen + len(b)).put(16, ver).put(8, seg["x"]).put(8, seg["y"]).put(8, seg.get("width", 16))
    f = seg.get("filth", (0, 0, 0, 0))
    if ver > 4:
        h.put(32, seg.get("uid", 0)).put(16, f[0]).put(16, f[1])
    if ver > 5:
        h.put(16, f[2]).put(16, f[3])
    h.put(32, flags)
    out = h.done()
    assert len(out) == hlen
    return out + b


def decode_segment(r, dustmod):
    need(r.pos % 8 == 0, "segment not byte aligned")
    start = r.pos
    size = r.get(32)
    ver = r.get(16)
    seg = {"version": ver, "x": r.get(8), "y": r.get(8), "width": r.get(8), "size": size,
           "layers": [], "dusts": [], "props": [], "ents": []}
    f = [0, 0, 0, 0]
    if ver > 4:
        seg["uid"] = r.get(32)
        f[0], f[1] = r.get(16), r.get(16)
    if ver > 5:
        f[2], f[3] = r.get(16), r.get(16)
    seg["filth"] = tuple(f)
    flags = seg["flags"] = r.get(32)
    need(flags & ~15 == 0, "unknown segment flags %x", flags)
    need(8 * size >= r.pos - start and start + 8 * size <= 8 * len(r.data), "segment size %d impossible", size)
    if flags & 1:
        for _ in range(r.get(8)):
            layer = r.get(8)
            tiles = []
            for _ in range(r.get(10)):
                tx, ty, sh, fl = r.get(5), r.get(5), r.get(5), r.get(3)
                need(tx < 16 and ty < 16, "tile position out of segment (%d,%d)", tx, ty)
                need(sh <= 20, "bad shape %d", sh)
                tiles.append((tx, ty, tile_from(sh, fl, r.raw(12))))
            seg["layers"].append((layer, tiles))
    if flags & 2:
        for _ in range(r.get(10)):
            tx, ty = r.get(5), r.get(5)
            seg["dusts"].append((tx, ty, r.raw(12)))
    if flags & 8:
        for _ in range(r.get(16)):
            p = get_prop(r, ver > 6 or dustmod)
            if p is not None:
                seg["props"].append(p)
    if flags & 4:
        ents = []
        for _ in range(r.get(16)):
            eid = r.get(32, True)
            if eid < 0:
                continue
            etype = get_str6(r)
            x, y = get_fixed(r, 32, 8), get_fixed(r, 32, 8)
            rot, layer = r.get(16), r.get(8)
            fx, fy, vis = r.get(1) == 0, r.get(1) == 0, r.get(1) == 1
            vs = get_var(r, 14)
            ents.append([eid, etype, x, y, rot, layer, fx, fy, vis, vs])
        ext = [e for e in ents if e[1] == "entity"]
        endpos = r.pos
        if ver > 7:
            r.pos = start + 8 * size - 32
            need(r.pos >= endpos, "segment too small for the name table")
            back = r.get(32)
            npos = start + 8 * size - 32 - back
            need(npos == endpos, "name table does not start after the entities (%d, %d)", npos, endpos)
            r.pos = npos
            for e in ext:
                e[1] = get_str6(r)
                need(extended(e[1]), "%r stored as an extended name", e[1])
            need(r.pos <= start + 8 * size - 32, "name table overruns")
            while r.pos < start + 8 * size - 32:
                k = min(64, start + 8 * size - 32 - r.pos)
                need(r.get(k) == 0, "garbage after name table")
            r.pos = start + 8 * size
        seg["ents"] = [tuple(e) for e in ents]
    else:
        pass
    r.zero_align()
    need(r.pos == start + 8 * size, "segment size %d but contents end at %d", size, (r.pos - start) // 8)
    return seg


def encode_region(reg):
    """reg: x, y, segments [seg], backdrop seg or None, version"""
    payload = b"".join(encode_segment(s) for s in reg["segments"])
    if reg["backdrop"] is not None:
        payload += encode_segment(reg["backdrop"])
    comp = zlib.compress(payload, reg.get("zlevel", 6))
    w = BW()
    w.put(32, 17 + len(comp)).put(32, len(payload)).put(16, reg["x"]).put(16, reg["y"])
    w.put(16, reg.get("version", 14)).put(16, len(reg["segments"])).put(8, 0 if reg["backdrop"] is None else 1)
    return w.done() + comp


def decode_region(data, off, dustmod):
    r = BR(data, off * 8)
    n, un = r.get(32), r.get(32)
    x, y = r.get(16, True), r.get(16, True)
    ver, nseg, hasbd = r.get(16), r.get(16), r.get(8)
    need(hasbd in (0, 1), "backdrop flag %d", hasbd)
    need(n >= 17, "region length %d", n)
    comp = r.raw(n - 17)
    d = zlib.decompressobj()
    try:
        payload = d.decompress(comp)
    except zlib.error as e:
        raise RefError("region payload: %s" % e)
    need(d.eof and not d.unused_data, "region payload has trailing or missing data")
    need(len(payload) == un, "uncompressed length %d, header says %d", len(payload), un)
    sr = BR(payload)
    segs = [decode_segment(sr, dustmod) for _ in range(nseg)]
    bd = decode_segment(sr, dustmod) if hasbd else None
    need(sr.pos == 8 * len(payload), "trailing data after segments")
    return {"x": x, "y": y, "version": ver, "segments": segs, "backdrop": bd, "length": n}


def encode_level(lv):
    """lv: vars ('d',..), sshot, regions, version, next_id, meta fields"""
    ver = lv.get("version", 44)
    vw = BW()
    put_var(vw, lv["vars"])
    regs = [encode_region(r) for r in lv["regions"]]
    off = 0
    for b in regs:
        vw.put(32, off)
        off += len(b)
    tail = vw.done()
    meta = BW()
    meta.raw(b"DF_MTD").put(16, lv.get("meta_version", 4)).put(32, lv.get("region_offset", 0)).put(32, lv["next_id"])
    meta.put(32, lv.get("prop_uid", 0)).put(32, lv.get("save_uid", 0)).put(32, lv.get("region_uid", 0))
    mid = meta.done()
    if ver > 43:
        mid += len(lv["sshot"]).to_bytes(4, "little") + lv["sshot"]
    rest = mid + tail + b"".join(regs)
    w = BW()
    w.raw(b"DF_LVL").put(16, ver).put(32, 16 + len(rest)).put(32, len(regs))
    return w.done() + rest


def decode_level(data, start=0, exact=True, regions=True):
    data = data[start:]
    r = BR(data)
    need(r.raw(6) == b"DF_LVL", "bad magic")
    ver = r.get(16)
    size = r.get(32)
    nreg = r.get(32)
    if exact:
        need(size == len(data), "file size field %d, file has %d bytes", size, len(data))
    else:
        need(size <= len(data), "file size field %d, file has %d bytes", size, len(data))
        data = data[:size]
        r.data = data
    need(r.raw(6) == b"DF_MTD", "bad metadata magic")
    lv = {"version": ver, "size": size, "meta_version": r.get(16), "region_offset": r.get(32), "next_id": r.get(32),
          "meta_rest": (r.get(32), r.get(32), r.get(32)), "sshot": b""}
    if ver > 43:
        lv["sshot"] = r.raw(r.get(32))
    lv["vars"] = get_var(r, 14)
    lt = dict(lv["vars"][1]).get("level_type")
    dustmod = lt is not None and lt == ("i", 6)
    offs = [r.get(32) for _ in range(nreg)]
    r.zero_align()
    base = r.pos // 8
    pos, regs = 0, []
    if not regions:
        lv["offsets"], lv["base"] = offs, base
        return lv
    for i, o in enumerate(offs):
        need(o == pos, "directory entry %d is %d, region starts at %d", i, o, pos)
        reg = decode_region(data, base + pos, dustmod)
        pos += reg["length"]
        regs.append(reg)
    need(base + pos == size, "regions end at %d, file size %d", base + pos, size)
    lv["regions"], lv["offsets"], lv["base"] = regs, offs, base
    return lv


# ---- var files -------------------------------------------------------------------------------


def encode_var_file(header, var, version=1, size=None):
    w = BW()
    put_var(w, var)
    b = w.done()
    return header + version.to_bytes(2, "little") + (len(header) + 6 + len(b) if size is None else size).to_bytes(4, "little") + b


def decode_var_file(data, header):
    need(data[:len(header)] == header, "bad header")
    r = BR(data, 8 * len(header))
    ver, size = r.get(16), r.get(32)
    need(ver == 1, "version %d", ver)
    need(size == len(data), "size field %d, file %d", size, len(data))
    v = get_var(r, 14)
    r.zero_align()
    need(r.pos == 8 * len(data), "trailing data")
    return v


# ---- replays ---------------------------------------------------------------------------------
# replay: dict version, username (None = no header), level, frames, players [(char, {stream: [values bits]})],
# entities [(uid, [(frame,x10,y10,vx100,vy100)])]
# stream values are the stored bit values.

STREAMS = [(2, 1, 1), (2, 1, 1), (2, 1, 0), (2, 1, 0), (2, 1, 0), (4, 1, 0), (4, 1, 0), (4, 3, 0), (16, 4, 0),
           (16, 4, 0), (8, 4, 0)]  # (bits, since version, neutral bits)


def runs_of(values, neutral):
    """Runs as the format counts them: an implicit neutral frame precedes the data."""
    seq = [neutral] + list(values)
    out = []
    for v in seq:
        if out and out[-1][0] == v:
            out[-1][1] += 1
        else:
            out.append([v, 1])
    return out


def encode_intent(values, bits, neutral, split=None, tail=0):
    """split(count) yields the pieces (each 1..255) a run is written as; tail = extra padding bytes.

    Stored as: count-1 of the first run (neutral, counting the implicit frame), then for each further piece its
    value and count-1, then a final neutral value and 0xFF."""
    w = BW()
    first = True
    for v, n in runs_of(values, neutral):
        pieces = split(n) if split else None
        if not pieces:
            pieces = [255] * (n // 255) + ([n % 255] if n % 255 else [])
        for piece in pieces:
            if not first:
                w.put(bits, v)
            first = False
            w.put(8, piece - 1)
    w.put(bits, neutral)
    w.put(8, 0xFF)
    return w.done() + bytes(tail)


def decode_intent(data, bits, neutral):
    r = BR(data)
    out, state, first = [], neutral, True
    while True:
        c = r.get(8)
        if c == 0xFF:
            break
        out += [state] * (c if first else c + 1)
        first = False
        state = r.get(bits)
    need(state == neutral, "stream does not return to neutral at its end")
    r.zero_align()
    need(r.pos == 8 * len(data), "intent length %d, used %d", len(data), r.pos // 8)
    return out


def encode_replay(rep, split=None, tail=lambda p, s: 0, zlevel=6):
    ver = rep["version"]
    sec = b""
    for pi, (char, streams) in enumerate(rep["players"]):
        for s, (bits, since, neutral) in enumerate(STREAMS):
            if ver < since:
                continue
            b = encode_intent(streams.get(s, []), bits, neutral, split, tail(pi, s))
            sec += len(b).to_bytes(4, "little") + b
    w = BW()
    w.put(32, len(sec)).raw(sec).put(32, len(rep["entities"]))
    for i, (uid, frames) in enumerate(rep["entities"]):
        w.put(32, uid).put(32, i).put(32, len(frames))
        for fr in frames:
            for v in fr:
                w.put(32, v)
    sub = w.done()
    out = b""
    if rep.get("username") is not None:
        out += b"DF_RPL2" + len(rep["username"]).to_bytes(2, "little") + rep["username"]
    out += b"DF_RPL%d" % ver
    out += rep.get("count", len(rep["players"])).to_bytes(2, "little") + len(sub).to_bytes(4, "little")
    out += rep["frames"].to_bytes(4, "little") + bytes(c for c, _ in rep["players"])
    out += bytes([len(rep["level"])]) + rep["level"] + zlib.compress(sub, zlevel)
    return out


def decode_replay(data, exact=True):
    r = BR(data)
    need(r.raw(6) == b"DF_RPL", "bad magic")
    ver = r.get(8) - 48
    user = None
    if ver == 2:
        user = r.raw(r.get(16))
        need(r.raw(6) == b"DF_RPL", "bad second magic")
        ver = r.get(8) - 48
    need(ver in (1, 3, 4), "version %d", ver)
    np_ = r.get(16)
    if ver < 3:
        need(np_ == 1, "version 1 player count %d", np_)
    un, frames = r.get(32), r.get(32)
    chars = [r.get(8) for _ in range(np_)]
    level = r.raw(r.get(8))
    d = zlib.decompressobj()
    try:
        sub = d.decompress(data[r.pos // 8:])
    except zlib.error as e:
        raise RefError("replay payload: %s" % e)
    need(d.eof, "replay payload truncated")
    if exact:
        need(not d.unused_data, "trailing data after replay")
    need(un == len(sub), "uncompressed size %d, is %d", un, len(sub))
    sr = BR(sub)
    seclen = sr.get(32)
    players = []
    for c in chars:
        streams = {}
        for s, (bits, since, neutral) in enumerate(STREAMS):
            if ver < since:
                continue
            streams[s] = decode_intent(sr.raw(sr.get(32)), bits, neutral)
        players.append((c, streams))
    need(sr.pos == 32 + 8 * seclen, "input section length %d, used %d", seclen, sr.pos // 8 - 4)
    ents = []
    for i in range(sr.get(32)):
        uid = sr.get(32)
        sr.get(32)  # replay uid, numbering is free
        ents.append((uid, [(sr.get(32),) + tuple(sr.get(32, True) for _ in range(4)) for _ in range(sr.get(32))]))
    need(sr.pos == 8 * len(sub), "trailing data in payload")
    return {"version": ver, "username": user, "level": level, "frames": frames, "players": players, "entities": ents,
            "consumed": len(data) - len(d.unused_data)}
