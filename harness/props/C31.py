import io
import os
import tempfile

import dustmaker
from dustmaker.bitio import BitIOReader, BitIOWriter
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from hypothesis import strategies as st

from ..engine import Sub, check, same
from .. import gen
from ..model import levelview, lossy, mklevel, mkvars, quant, specview, varsview
from ..replays import check_replay, mkreplay, replays

ID = "C31"
RULE = "sequences: at least two objects; ownership: bits are pending at the close, or the stream is unbuffered"
ASSUMPTIONS = ["every object starts at a byte boundary (align() is called after raw bits and after reading a variable file)"]


class Raw(io.RawIOBase):
    """Unbuffered in-memory stream of the user."""

    def __init__(self, data=b"", seekable=True):
        self.buf, self.pos, self.can_seek = bytearray(data), 0, seekable

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return self.can_seek

    def seek(self, pos, whence=0):
        if not self.can_seek:
            raise io.UnsupportedOperation("seek")
        self.pos = pos + (0, self.pos, len(self.buf))[whence]
        return self.pos

    def tell(self):
        if not self.can_seek:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def readinto(self, b):
        d = self.buf[self.pos:self.pos + len(b)]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        b = bytes(b)
        if self.pos > len(self.buf):
            self.buf += bytes(self.pos - len(self.buf))
        self.buf[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)


class Stream:
    """One stream of the given kind holding `data`, positioned at `at`."""

    def __init__(self, kind, data, at):
        self.kind, self.path = kind, None
        if kind == "mem":
            self.f = io.BytesIO(data)
        elif kind == "custom":
            self.f = Raw(data)
        elif kind == "pipe":
            self.f = Raw(data, False)
            self.f.pos = at
        else:
            fd, self.path = tempfile.mkstemp(prefix="verif-c31-")
            os.write(fd, data)
            os.close(fd)
            self.f = open(self.path, "r+b", buffering=0 if kind == "raw" else -1)
        if kind != "pipe":
            self.f.seek(at)

    def content(self):
        """Everything stored, as seen by someone else once the stream is flushed."""
        if self.kind == "mem":
            return self.f.getvalue()
        if self.kind in ("custom", "pipe"):
            return bytes(self.f.buf)
        if not self.f.closed:
            self.f.flush()
        with open(self.path, "rb") as g:
            return g.read()

    def done(self):
        if not self.f.closed:
            self.f.close()
        if self.path:
            os.unlink(self.path)


def bits_ref(vals):
    acc = n = 0
    for b, v in vals:
        acc |= (v & ((1 << b) - 1)) << n
        n += b
    return acc.to_bytes((n + 7) // 8, "little")


def put(w, item):
    k, x = item[0], item[1]
    if k == "level":
        w.write_level(mklevel(x))
    elif k == "replay":
        w.write_replay(mkreplay(x), force_username=x["force"])
    elif k == "vars":
        w.write_var_file(item[2], mkvars(x))
    elif k == "bits":
        for b, v in x:
            w.write(b, v & ((1 << b) - 1))
        w.align()
    else:
        w.write_bytes(x)


def alone(item):
    """The bytes of one object in a stream of its own."""
    if item[0] == "bits":
        return bits_ref(item[1])
    if item[0] == "bytes":
        return item[1]
    if item[0] == "level":
        return dustmaker.write_level(mklevel(item[1]))
    s = io.BytesIO()
    w = DFWriter(s, noclose=True)
    put(w, item)
    w.close()
    return s.getvalue()


def get(r, item, size, known, where):
    k, x = item[0], item[1]
    if k == "level":
        if known == 2:  # metadata first, then region by region
            lv, offs = r.read_level_ex()
            for _ in offs[:-1]:
                r.read_region(lv)
        else:
            lv = r.read_level()
        same(levelview(lv), lossy(specview(x)), where)
    elif k == "replay":
        check_replay(r.read_replay(known_length=size) if known else r.read_replay(), x)
    elif k == "vars":
        v = r.read_var_file(item[2])
        r.align()
        same(varsview(v), quant(x), where)
    elif k == "bits":
        for i, (b, v) in enumerate(x):
            g = r.read(b)
            check(g == v & ((1 << b) - 1), "%s: value %d is %r, wrote %d", where, i, g, v)
        r.align()
    else:
        same(r.read_bytes(len(x)), x, where)


def sequence(case, t):
    kind, rkind, pre, old, items, known = case
    if kind == "pipe":
        items = [i for i in items if i[0] in ("replay", "bits", "bytes")]
        old = b""
    base = gen.pattern(pre, 3)
    parts = [alone(i) for i in items]
    want = base + b"".join(parts)
    want += (base + old)[len(want):]
    start = Stream(kind, base + old, pre)
    try:
        w = DFWriter(start.f, noclose=True)
        zero = 0 if kind == "pipe" else 8 * pre
        check(w.bit_tell() == zero, "new writer stands at bit %d, expected %d", w.bit_tell(), zero)
        ends = []
        at = zero
        for i, (item, p) in enumerate(zip(items, parts)):
            put(w, item)
            at += 8 * len(p)
            check(w.bit_tell() == at and w.aligned(), "writer stands at bit %d after object %d (%s), expected %d", w.bit_tell(), i, item[0], at)
            ends.append(at - zero + 8 * pre)
        w.close()
        check(not start.f.closed, "stream closed although noclose was given")
        got = start.content()
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            j = next((j for j, e in enumerate(ends) if 8 * i < e), len(ends))
            check(False, "stream differs at byte %d (object %d of %d): %s, expected %s (lengths %d, %d)", i, j, len(items),
                  got[i:i + 6].hex(), want[i:i + 6].hex(), len(got), len(want))
    finally:
        start.done()
    rs = Stream(rkind, want, pre)
    try:
        if rkind == "pipe":
            items = [i for i in items if i[0] in ("replay", "bits", "bytes")]
            if len(items) != len(ends):
                return
        r = DFReader(rs.f)
        zero = 0 if rkind == "pipe" else 8 * pre
        check(r.bit_tell() == zero, "new reader stands at bit %d, expected %d", r.bit_tell(), zero)
        for i, (item, p, e) in enumerate(zip(items, parts, ends)):
            get(r, item, len(p), known, "object %d (%s)" % (i, item[0]))
            e = e - 8 * pre + zero
            check(r.bit_tell() == e and r.aligned(), "reader stands at bit %d after object %d (%s), expected %d", r.bit_tell(), i, item[0], e)
        rest = r.read_bytes(len(want))
        same(rest, want[ends[-1] // 8 if ends else pre:], "data after the last object")
        r.close()
        check(rs.f.closed, "stream still open after the reader was closed")
    finally:
        rs.done()
    t.nontrivial(len(items) >= 2)
    for i in items:
        t.label(i[0])
    t.label("%s -> %s" % (kind, rkind))


class Busy(Raw):
    """Runs something else inside chosen calls of the stream: between the steps of one operation, another one happens."""

    def __init__(self, data, when, after, act):
        super().__init__(data)
        self.when, self.after, self.act, self.n, self.left, self.active = when, after, act, 0, 8, False

    def _tick(self):
        self.n += 1
        if self.left and not self.active and self.n > self.after and self.when[self.n % len(self.when)]:
            self.active = True
            self.left -= 1
            try:
                self.act()
            finally:
                self.active = False

    def read(self, n=-1):
        self._tick()
        return super().read(n)

    def write(self, b):
        self._tick()
        return super().write(b)

    def seek(self, pos, whence=0):
        self._tick()
        return super().seek(pos, whence)


class BusyMemory(io.BytesIO):
    """The same for a stream the library uses directly, without a buffer of its own in between."""

    def __init__(self, data, when, after, act):
        super().__init__(data)
        self.when, self.after, self.act, self.n, self.left, self.active = when, after, act, 0, 8, False

    _tick = Busy._tick

    def read(self, n=-1):
        self._tick()
        return super().read(n)

    def write(self, b):
        self._tick()
        return super().write(b)

    def seek(self, pos, whence=0):
        self._tick()
        return super().seek(pos, whence)


def nested(case, t):
    """Objects on different streams, one read or written in the middle of the other."""
    outer, inner, when, after, mode = case
    want_o, want_i = alone(outer), alone(inner)
    ran = [0]
    kind = Busy if len(when) % 2 else BusyMemory

    def act():
        ran[0] += 1
        if mode & 1:
            same(alone(inner), want_i, "object written in the middle of another")
        else:
            r = DFReader(io.BytesIO(want_i))
            get(r, inner, len(want_i), mode >> 2, "object read in the middle of another")
            r.close()

    if mode & 2:
        s = kind(b"", when, after, act)
        w = DFWriter(s, noclose=True)
        put(w, outer)
        w.close()
        same(bytes(s.buf) if kind is Busy else s.getvalue(), want_o, "object written while another was used")
    else:
        s = kind(want_o, when, after, act)
        r = DFReader(s, noclose=True)
        get(r, outer, len(want_o), mode >> 2, "object read while another was used")
        r.close()
    t.nontrivial(ran[0])
    t.label("%s inside %s" % ("write" if mode & 1 else "read", "write" if mode & 2 else "read"))


class Boom(Exception):
    pass


def ownership(case, t):
    kind, cls, noclose, release, how, ops, boom, again = case
    owned = not noclose and not release
    pre = 3
    data = gen.pattern(pre, 5)
    writer = cls in ("BitIOWriter", "DFWriter")
    C = {"BitIOWriter": BitIOWriter, "DFWriter": DFWriter, "BitIOReader": BitIOReader, "DFReader": DFReader}[cls]
    s = Stream(kind, data + (b"" if writer else gen.pattern(40, 6)), pre)
    try:
        def use(o):
            if release and release < 3:
                o.release()
            for b, v in ops:
                if writer:
                    o.write(b, v & ((1 << b) - 1))
                else:
                    o.read(b)
            if release == 3:
                o.release()
            if boom:
                raise Boom()
        o = C(s.f, noclose=noclose) if noclose or how & 2 else C(s.f)
        if how & 1:
            try:
                with o as x:
                    check(x is o, "the context manager gives %r", x)
                    use(o)
                check(not boom, "exception swallowed")
            except Boom:
                pass
        else:
            try:
                use(o)
            except Boom:
                pass
            o.close()
        check(s.f.closed == owned, "%s stream is %s after closing a %s %s", kind, "closed" if s.f.closed else "open",
              "released" if not owned else "plain", cls)
        if writer and not (owned and kind == "mem"):
            want = data + bits_ref(ops)
            same(s.content(), want, "stream contents after closing the writer")
            if not owned:  # the caller goes on with the stream, by hand or with another writer
                if again:
                    with C(s.f, noclose=True) as w2:
                        w2.write(12, 0xABC)
                else:
                    s.f.write(b"\xBC\x0A")
                same(s.content(), want + b"\xBC\x0A", "stream contents after writing on")
        elif not writer and not owned:
            s.f.read(1)  # still usable
    finally:
        s.done()
    t.nontrivial(sum(b for b, _ in ops) % 8 or kind in ("raw", "custom", "pipe"))
    t.label("%s %s %s" % (kind, cls, "owned" if owned else "released"))


bits = st.lists(st.tuples(st.one_of(st.integers(1, 9), st.integers(1, 40)), st.one_of(st.integers(0, 255), st.integers(0, 2**40))), max_size=6).map(tuple)
headers = st.sampled_from([b"DF_STA", b"DF_CFG", b"", b"DF_FOG", b"X" * 20])
item = st.one_of(
    st.tuples(st.just("level"), gen.levels(max_tiles=5, max_props=3, max_ents=2, max_bprops=2)),
    st.tuples(st.just("level"), gen.levels(max_tiles=2, max_props=1, max_ents=1, max_bprops=1, var_depth=1)),
    st.tuples(st.just("replay"), replays(2)),
    st.tuples(st.just("vars"), gen.struct(2), headers),
    st.tuples(st.just("vars"), gen.struct(2), headers),
    st.tuples(st.just("bits"), bits),
    st.tuples(st.just("bytes"), gen.byte_strings(12)),
)
kinds = st.sampled_from(["mem", "mem", "mem", "custom", "file", "raw", "pipe"])
offs = st.one_of(st.integers(0, 9), st.integers(0, 9), gen.size(0, 5000, 40), gen.size(0, 300000, 3000), gen.size(0, 300000, 3000),
                 st.sampled_from([8192, 65536, 131072, 262144, 2097152 + 3]))
seqs = st.tuples(kinds, kinds, offs, st.sampled_from([b"", b"", b"\xEE" * 7, b"\xEE" * 900]), st.lists(item, min_size=1, max_size=4), st.integers(0, 2))
small_bits = st.lists(st.tuples(st.integers(1, 17), st.integers(0, 2**17)), max_size=4).map(tuple)
own = st.tuples(st.sampled_from(["mem", "custom", "file", "raw", "pipe"]), st.sampled_from(["BitIOWriter", "DFWriter", "BitIOReader", "DFReader"]),
                st.booleans(), st.sampled_from([0, 0, 1, 3]), st.integers(0, 3), small_bits, st.sampled_from([False, False, True]), st.booleans())
small_item = st.one_of(st.tuples(st.just("level"), gen.levels(max_tiles=2, max_props=1, max_ents=1, max_bprops=1, var_depth=1)), st.tuples(st.just("replay"), replays(2)),
                       st.tuples(st.just("vars"), gen.struct(2), headers), st.tuples(st.just("bits"), bits))
nest = st.tuples(small_item, small_item, st.lists(st.booleans(), min_size=1, max_size=7).filter(any), st.one_of(st.just(0), st.integers(0, 40), gen.ints(0, 1000)), st.integers(0, 11))
SUBS = [Sub("nested", lambda: nest, nested, 2500), Sub("sequences", lambda: seqs, sequence, 3000), Sub("ownership", lambda: own, ownership, 4000)]
