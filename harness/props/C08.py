import io

from dustmaker.bitio import BitIOReader, BitIOWriter
from dustmaker.exceptions import LevelParseException
from hypothesis import strategies as st

from ..engine import Sub, check, fail, observing, same
from .. import gen

ID = "C08"
RULE = "the history has at least three operations and leaves byte alignment at some point"
ASSUMPTIONS = ["a byte-aligned read_bytes past the end may return the available bytes or raise; everything else past the end must raise"]


class NoSeek:
    """A pipe-like source."""

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def close(self):
        self._b.close()


def bits_at(data, pos, n):
    v = int.from_bytes(data[pos >> 3:(pos + n + 7) >> 3], "little") >> (pos & 7)
    return v & ((1 << n) - 1)


def reader(case, t):
    for _ in reader_steps(case, t):
        pass


def reader_steps(case, t):
    data, start, seekable, ops = case
    if seekable:
        s = io.BytesIO(data)
        start = min(start, len(data))
        s.seek(start)
        r, pos = BitIOReader(s), 8 * start
    else:
        r, pos = BitIOReader(NoSeek(data)), 0
    total = 8 * len(data)
    unaligned = False
    for op in ops:
        yield
        k, a = op[0], op[1]
        if k in ("skip", "seek", "far") and not seekable:
            k, a = "read", abs(a) % 40 + 1
        check(r.bit_tell() == pos, "position %d, expected %d (before %r)", r.bit_tell(), pos, op)
        check(bool(r.aligned()) == (pos % 8 == 0), "aligned() is %r at bit %d", r.aligned(), pos)
        unaligned |= pos % 8 != 0
        if k in ("read", "sread"):
            signed = k == "sread"
            if pos + a > total:
                if a == 0:
                    break
                try:
                    v = r.read(a, signed) if signed else r.read(a)
                except LevelParseException:
                    t.label("past-end")
                    break
                fail("read(%d) at bit %d of %d returned %d", a, pos, total, v)
            v = r.read(a, signed) if signed else r.read(a)
            want = bits_at(data, pos, a)
            if signed and a and want >> (a - 1):
                want -= 1 << a
            check(type(v) is int and v == want, "read(%d, signed=%s) at bit %d gave %r, expected %d", a, signed, pos, v, want)
            pos += a
        elif k == "bytes":
            if pos + 8 * a > total:
                if pos > total:
                    break
                try:
                    v = r.read_bytes(a)
                except LevelParseException:
                    t.label("past-end")
                    break
                with observing("bytes read"):
                    check(pos % 8 == 0 and v == data[pos // 8:], "read_bytes(%d) at bit %d of %d returned %r", a, pos, total, v)
                pos = total
                continue
            v = r.read_bytes(a)
            want = bits_at(data, pos, 8 * a).to_bytes(a, "little")
            check(isinstance(v, bytes) and v == want, "read_bytes(%d) at bit %d gave %r, expected %r", a, pos, v, want)
            pos += 8 * a
        elif k == "align":
            if pos > total:
                break
            r.align()
            pos = (pos + 7) // 8 * 8
        elif k == "skip":
            to = pos + a
            if not 0 <= to <= total + 16:
                to = (to % (total + 1))
            r.skip(to - pos)
            pos = to
        elif k == "seek":
            to = a % (total + 9)
            r.bit_seek(to)
            pos = to
        elif k == "far":
            # way beyond the end and back, absolutely or relatively
            r.bit_seek(a)
            check(r.bit_tell() == a, "position %d after bit_seek(%d)", r.bit_tell(), a)
            check(bool(r.aligned()) == (a % 8 == 0), "aligned() is %r at bit %d", r.aligned(), a)
            to = a % (total + 1)
            if a & 8:
                r.skip(to - a)
            else:
                r.bit_seek(to)
            pos = to
    else:
        check(r.bit_tell() == pos, "position %d at the end, expected %d", r.bit_tell(), pos)
    t.nontrivial(len(ops) >= 3 and unaligned)
    t.label("seekable" if seekable else "pipe")


def writer(case, t):
    for _ in writer_steps(case, t):
        pass


def interleaved(case, t):
    """Several readers and writers in use at the same time, each against its own model."""
    parts, schedule = case
    live = [reader_steps(c, t) if len(c) == 4 else writer_steps(c, t) for c in parts]
    n = 0
    for k in schedule:
        if not live:
            break
        g = live[k % len(live)]
        n += 1
        try:
            next(g)
        except StopIteration:
            live.remove(g)
    for g in live:
        for _ in g:
            pass
    t.nontrivial(len(parts) > 1 and n > 3)


def writer_steps(case, t):
    init, start, dest, ops, close = case
    model = bytearray(init)
    start = min(start, len(init))
    if dest == "mem":
        s = io.BytesIO(init)
    else:
        import tempfile
        f = tempfile.NamedTemporaryFile(prefix="verif-c08-", buffering=0 if dest == "raw" else -1)
        f.write(init)
        f.flush()
        s = f.file if hasattr(f, "file") else f
    s.seek(start)
    w = BitIOWriter(s, noclose=True)
    pos = 8 * start
    pend = None  # bits of the current byte written so far as (value) or None if untouched since a mid-byte seek
    pending_any = False
    unaligned = False

    def put_byte(i, v):
        while len(model) < i:
            model.append(0)
        if i < len(model):
            model[i] = v
        else:
            model.append(v)

    cur = 0  # accumulated bits of the partial byte
    touched = True  # False: positioned mid-byte by a seek, nothing written yet

    def commit():
        nonlocal pos, cur, touched
        if pos % 8 and touched:
            put_byte(pos // 8, cur)
            pos = (pos + 7) // 8 * 8
        if pos % 8 == 0:
            cur, touched = 0, True

    def put(n, v):
        nonlocal pos, cur, touched
        v &= (1 << n) - 1
        if pos % 8 and not touched:
            cur, touched = 0, True
        acc, have = cur | v << (pos % 8), pos % 8 + n
        i = pos // 8
        while have >= 8:
            put_byte(i, acc & 255)
            acc >>= 8
            have -= 8
            i += 1
        cur = acc
        pos += n

    for op in ops:
        yield
        k = op[0]
        check(w.bit_tell() == pos, "position %d, expected %d (before %r)", w.bit_tell(), pos, op)
        check(bool(w.aligned()) == (pos % 8 == 0), "aligned() is %r at bit %d", w.aligned(), pos)
        unaligned |= pos % 8 != 0
        if k == "write":
            n, v = op[1], op[2]
            v = v & ((1 << n) - 1)
            if op[3] and v >> (n - 1):
                v -= 1 << n
            w.write(n, v)
            put(n, v)
        elif k == "bytes":
            if not op[1] and not touched:
                continue  # whether an empty write after a mid-byte seek counts as a write is open
            w.write_bytes(op[1])
            for b in op[1]:
                put(8, b)
        elif k == "align":
            w.align()
            commit()
            if pos % 8:
                pos = (pos + 7) // 8 * 8
                cur, touched = 0, True
        elif k == "flush":
            w.flush()
            commit()
        elif k == "far":
            a = op[1] // 8 * 8
            w.bit_seek(a)
            commit()
            check(w.bit_tell() == a, "position %d after bit_seek(%d)", w.bit_tell(), a)
            check(bool(w.aligned()), "aligned() is %r at bit %d", w.aligned(), a)
            pos = op[1] % (len(model) + 1) * 8
            if op[2]:
                w.skip(pos - a)
            else:
                w.bit_seek(pos)
            cur, touched = 0, True
        elif k in ("seek", "skip", "useek"):
            top = 8 * len(model) + 40
            if k == "seek":
                to = op[1] % (top // 8) * 8
                w.bit_seek(to)
            elif k == "useek":
                to = op[1] % top
                w.bit_seek(to, allow_unaligned=True)
            else:
                to = (pos + op[1]) // 8 * 8
                if not 0 <= to <= top:
                    to = to % (top // 8) * 8
                    to = to // 8 * 8
                w.skip(to - pos)
            commit()
            pos = to
            cur, touched = 0, pos % 8 == 0
    yield
    check(w.bit_tell() == pos, "position %d at the end, expected %d", w.bit_tell(), pos)
    if close == "close":
        w.close()
        commit()
    elif close == "align":
        w.align()
        commit()
        w.close()
    else:
        w.flush()
        commit()
        w.close()
    if dest == "mem":
        out = s.getvalue()
    else:
        f.flush()
        f.seek(0)
        out = f.read()
        f.close()
    want = bytes(model)
    if out != want:
        i = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        fail("stream differs at byte %d: %s, expected %s (lengths %d, %d)", i, out[i:i + 4].hex(), want[i:i + 4].hex(), len(out), len(want))
    t.nontrivial(len(ops) >= 3 and unaligned)
    t.label(dest)


def roundtrip(case, t):
    """Plain concatenation of values at arbitrary widths."""
    vals, signed_read = case
    w = BitIOWriter(io.BytesIO())
    for n, v, neg in vals:
        v &= (1 << n) - 1
        w.write(n, v - (1 << n) if neg and v >> (n - 1) else v)
    w.align()
    data = w.data.getvalue()
    total = sum(n for n, _, _ in vals)
    check(len(data) == (total + 7) // 8, "%d bits written as %d bytes", total, len(data))
    r = BitIOReader(io.BytesIO(data))
    for n, v, neg in vals:
        v &= (1 << n) - 1
        if signed_read and v >> (n - 1):
            v -= 1 << n
        got = r.read(n, signed=signed_read)
        check(got == v, "wrote %d in %d bits, read %r", v, n, got)
    pad = -total % 8
    if pad:
        check(r.read(pad) == 0, "padding is not zero")
    t.nontrivial(len(vals) > 2)


width = st.one_of(st.integers(1, 9), st.integers(1, 40), gen.size(1, 200, 33))
rop = st.one_of(st.tuples(st.just("read"), st.one_of(st.just(0), width)), st.tuples(st.sampled_from(["read", "sread", "sread"]), width),
                st.tuples(st.just("bytes"), st.one_of(st.integers(0, 6), gen.size(0, 40, 5))), st.tuples(st.just("align"), st.just(0)),
                st.tuples(st.just("skip"), st.one_of(st.integers(-20, 40), gen.ints(-300, 300))),
                st.tuples(st.just("seek"), st.one_of(st.integers(0, 60), gen.ints(0, 400))))
wval = st.one_of(st.integers(0, 255), gen.ints(0, 2**40), st.just(2**200 - 1))
wop = st.one_of(st.tuples(st.just("write"), width, wval, st.booleans()), st.tuples(st.just("write"), width, wval, st.booleans()),
                st.tuples(st.just("bytes"), gen.byte_strings(6)), st.tuples(st.just("align")), st.tuples(st.just("flush")),
                st.tuples(st.just("seek"), st.integers(0, 500)), st.tuples(st.just("skip"), st.integers(-200, 200)),
                st.tuples(st.just("useek"), st.integers(0, 500)))
far = st.one_of(st.integers(24, 42).flatmap(lambda k: st.integers(-20, 20).map(lambda d: (1 << k) + d)), st.integers(1000, 1 << 42))
rop = st.one_of(rop, rop, rop, rop, rop, st.tuples(st.just("far"), far))
wop = st.one_of(wop, wop, wop, wop, wop, st.tuples(st.just("far"), far, st.booleans()))
data = st.one_of(st.binary(max_size=30), st.builds(gen.pattern, gen.size(0, 200, 40), st.integers(0, 99)))
rcase = st.tuples(data, st.integers(0, 5), st.sampled_from([True, True, True, False]), st.lists(rop, min_size=1, max_size=8))
wcase = st.tuples(data, st.integers(0, 5), st.just("mem"), st.lists(wop, min_size=1, max_size=8), st.sampled_from(["close", "align", "flush"]))
longs = st.one_of(gen.size(0, 70000, 9000), st.sampled_from([4095, 4096, 4097, 8191, 8192, 8193, 16385, 32769, 65535, 65536, 65537]), st.integers(0, 400))
SUBS = [
    Sub("interleaved", lambda: st.tuples(st.lists(st.one_of(rcase, wcase), min_size=2, max_size=3), st.lists(st.integers(0, 5), max_size=24)), interleaved, 3500),
    Sub("reader", lambda: st.tuples(data, st.integers(0, 5), st.sampled_from([True, True, True, False]),
                                    st.lists(rop, min_size=1, max_size=14)), reader, 15000),
    Sub("writer", lambda: st.tuples(data, st.integers(0, 5), st.just("mem"), st.lists(wop, min_size=1, max_size=14),
                                    st.sampled_from(["close", "align", "flush"])), writer, 13000),
    Sub("writer-file", lambda: st.tuples(data, st.integers(0, 5), st.sampled_from(["file", "raw"]), st.lists(wop, min_size=1, max_size=14),
                                         st.sampled_from(["close", "align", "flush"])), writer, 2000),
    Sub("roundtrip", lambda: st.tuples(st.lists(st.tuples(width, wval, st.booleans()), min_size=1, max_size=14), st.booleans()), roundtrip, 5000),
    # long streams and long single operations
    Sub("long-reader", lambda: st.tuples(st.builds(gen.pattern, longs, st.integers(0, 99)), st.integers(0, 5), st.sampled_from([True, True, False]),
                                         st.lists(st.one_of(rop, st.tuples(st.just("bytes"), longs), st.tuples(st.sampled_from(["read", "sread"]), longs.filter(bool))),
                                                  min_size=1, max_size=8)), reader, 600, 4000),
    Sub("long-writer", lambda: st.tuples(data, st.integers(0, 5), st.sampled_from(["mem", "mem", "file", "raw"]),
                                         st.lists(st.one_of(wop, st.tuples(st.just("bytes"), st.builds(gen.pattern, longs, st.integers(0, 99))),
                                                            st.tuples(st.just("write"), longs.filter(bool), wval, st.booleans())),
                                                  min_size=1, max_size=8), st.sampled_from(["close", "align", "flush"])), writer, 400, 3000),
]
