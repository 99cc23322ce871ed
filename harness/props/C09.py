import io
import math
from fractions import Fraction

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from hypothesis import strategies as st

from ..engine import Sub, check, same
from .. import gen
from .. import refcodec as R

ID = "C09"
RULE = "the value has a fractional part or is negative (numbers); the string is not empty (strings)"


def written(off, fn, pre=0x15A5A):
    w = DFWriter(io.BytesIO())
    if off:
        w.write(off, pre & ((1 << off) - 1))
    fn(w)
    end = w.bit_tell()
    w.write(2, 1)
    w.flush()
    return w.data.getvalue(), end


def ref(off, fn, pre=0x15A5A):
    w = R.BW()
    w.put(off, pre)
    fn(w)
    end = w.tell()
    w.put(2, 1)
    return w.done(), end


def number(case, t):
    ib, fb, x, off = case
    cand = R.fixed_candidates(x, fb)
    if len(cand) != 1:
        x = float(Fraction(cand[0], 1 << (fb - 1)))
        cand = R.fixed_candidates(x, fb)
    num = cand[0]
    same(written(off, lambda w: w.write_float(ib, fb, x)), ref(off, lambda w: R.put_fixed(w, ib, fb, num)),
         "encoding of %r as %d.%d" % (x, ib, fb))
    data, end = ref(off, lambda w: R.put_fixed(w, ib, fb, num))
    r = DFReader(io.BytesIO(data))
    if off:
        r.read(off)
    got = r.read_float(ib, fb)
    want = float(Fraction(num, 1 << (fb - 1)))
    check(got == want, "%r written as %d.%d reads back as %r, expected %r", x, ib, fb, got, want)
    check(r.bit_tell() == end, "reader stands at %d, expected %d", r.bit_tell(), end)
    t.nontrivial(x < 0 or x != int(x))


@st.composite
def numbers(draw):
    ib = draw(st.one_of(st.sampled_from([32, 28]), st.integers(2, 40)))
    fb = draw(st.one_of(st.sampled_from([32, 8, 4]), st.integers(1, 33)))
    top = (1 << (ib - 1)) - 1
    k = draw(st.integers(0, 5))
    unit = 1 << (fb - 1)
    if k == 0:
        x = draw(gen.ints(-top * unit, top * unit + unit - 1)) / unit
    elif k == 1:
        x = draw(st.floats(-min(top, 2.0**40), min(top, 2.0**40)))
    elif k == 2:
        x = draw(st.integers(-min(top, 50), min(top, 50))) + draw(st.floats(0, 0.9999))
    elif k in (3, 4):  # next to a step of the fraction
        x = draw(st.one_of(st.integers(-50 * unit, 50 * unit), gen.ints(-top * unit, top * unit))) / unit
        for _ in range(draw(st.integers(1, 3))):
            x = math.nextafter(x, draw(st.sampled_from([math.inf, -math.inf])))
        if k == 4:
            x += draw(st.sampled_from([1e-10, -1e-10, 1e-13, -1e-13, 1e-7, -1e-7])) / unit
    else:
        x = draw(gen.ints(-top, top))
        if draw(st.booleans()):
            x = float(x)
    if not -top <= math.floor(x) <= top:
        x = 0.0
    return (ib, fb, x, draw(st.integers(0, 17)))


def raw_number(case, t):
    """Any bit pattern read as a number."""
    ib, fb, v, off = case
    w = R.BW()
    w.put(off, 0x3C3C3).put(ib + fb, v).put(2, 2)
    data = w.done()
    r = DFReader(io.BytesIO(data))
    if off:
        r.read(off)
    got = r.read_float(ib, fb)
    want = float(Fraction(R.get_fixed(R.BR(data, off), ib, fb), 1 << (fb - 1)))
    check(got == want, "bits %x as %d.%d read as %r, expected %r", v & ((1 << (ib + fb)) - 1), ib, fb, got, want)
    check(r.read(2) == 2, "bits after the number")
    t.nontrivial(v != 0)


def string(case, t):
    s, off = case
    same(written(off, lambda w: w.write_6bit_str(s)), ref(off, lambda w: R.put_str6(w, s)), "encoding of %r" % s)
    data, end = ref(off, lambda w: R.put_str6(w, s))
    r = DFReader(io.BytesIO(data))
    if off:
        r.read(off)
    same(r.read_6bit_str(), s, "string read back")
    check(r.bit_tell() == end, "reader stands at %d, expected %d", r.bit_tell(), end)
    t.nontrivial(bool(s))


SUBS = [
    Sub("numbers", lambda: numbers(), number, 22000),
    Sub("bit-patterns", lambda: st.tuples(st.one_of(st.sampled_from([32, 28]), st.integers(2, 40)), st.one_of(st.sampled_from([32, 8, 4]),
        st.integers(1, 33)), st.one_of(gen.ints(0, 2**73 - 1), st.integers(0, 2**64)), st.integers(0, 17)), raw_number, 14000),
    Sub("strings", lambda: st.tuples(st.one_of(gen.str6, st.text(R.ALPHA6, max_size=63), st.text(R.ALPHA6, min_size=60, max_size=63)),
                                     st.integers(0, 17)), string, 9000),
]
