import copy
import math
import pickle
from fractions import Fraction

from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, observing, raises, same
from .. import gen

ID = "C29"
RULE = "algebra: the matrices have offsets and a linear part that is not a multiple of the identity"
ASSUMPTIONS = ["entries and points are dyadic numbers small enough for exact float arithmetic, so results are compared exactly"]


def fr(m):
    with observing("matrix"):
        return tuple(tuple(Fraction(x) for x in row) for row in m)


def ref_mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def ref_sample(m, x, y, off=True):
    return (m[0][0] * x + m[0][1] * y + (m[0][2] if off else 0), m[1][0] * x + m[1][1] * y + (m[1][2] if off else 0))


def pt(p, what):
    check(isinstance(p, tuple) and len(p) == 2, "%s: sample returned %r", what, p)
    return (Fraction(p[0]), Fraction(p[1]))


def make(rows, how):
    rows = [list(r) for r in rows] + [[0, 0, 1]]
    if how == 0:
        return TxMatrix(rows)
    if how == 1:
        return TxMatrix(tuple(tuple(r) for r in rows))
    if how == 2:
        return TxMatrix(iter([iter(r) for r in rows]))
    if how == 3:
        return TxMatrix(TxMatrix(rows))
    return TxMatrix((r[0], r[1], r[2]) for r in rows[:2] + [[0, 0, 1.0]])


def well_formed(m, want, what):
    check(isinstance(m, TxMatrix), "%s is a %s", what, type(m).__name__)
    with observing(what):
        check(len(m) == 3 and all(len(r) == 3 for r in m), "%s is %r", what, m)
        check(all(isinstance(x, (int, float)) for r in m for x in r), "%s has entries %r", what, m)
    same(fr(m), want, what)


def algebra(case, t):
    ra, rb, rc, hows, k, (x, y), (tx, ty) = case
    a, b, c = make(ra, hows[0]), make(rb, hows[1]), make(rc, hows[2])
    last = (Fraction(0), Fraction(0), Fraction(1))
    fa, fb, fc = (tuple(tuple(Fraction(v) for v in r) for r in rows) + (last,) for rows in (ra, rb, rc))
    for m, f in ((a, fa), (b, fb), (c, fc)):
        well_formed(m, f, "constructed matrix")
    fx, fy, ftx, fty, fk = map(Fraction, (x, y, tx, ty, k))
    ident = ((Fraction(1), Fraction(0), Fraction(0)), (Fraction(0), Fraction(1), Fraction(0)), last)
    # sampling
    same(pt(a.sample(x, y), "sample"), ref_sample(fa, fx, fy), "sampled point")
    same(pt(a.sample(x, y, with_offset=True), "sample"), ref_sample(fa, fx, fy), "sampled point")
    same(pt(a.sample(x, y, with_offset=False), "sample"), ref_sample(fa, fx, fy, False), "point sampled without offset")
    # products
    ab = a * b
    well_formed(ab, ref_mul(fa, fb), "product")
    same(pt(ab.sample(x, y), "sample"), pt(a.sample(*b.sample(x, y)), "sample"), "point sampled from a product")
    same(fr((a * b) * c), fr(a * (b * c)), "associativity: (a*b)*c")
    same(fr(TxMatrix.IDENTITY * a), fa, "identity * a")
    same(fr(a * TxMatrix.IDENTITY), fa, "a * identity")
    # translation
    at = a.translate(x=tx, y=ty) if hows[0] & 1 else a.translate(tx, ty)
    move = ((Fraction(1), Fraction(0), ftx), (Fraction(0), Fraction(1), fty), last)
    well_formed(at, ref_mul(move, fa), "translated matrix")
    same(fr(TxMatrix.IDENTITY.translate(tx, ty) * a), fr(at), "translation * a")
    # numbers
    scaled = tuple(tuple(v * fk for v in r) for r in fa[:2]) + (last,)
    well_formed(a * k, scaled, "matrix * number")
    well_formed(k * a, scaled, "number * matrix")
    # determinant, flip and scale
    for m, f in ((a, fa), (ab, ref_mul(fa, fb)), (at, fa)):
        det = f[0][0] * f[1][1] - f[0][1] * f[1][0]
        check(Fraction(m.determinant) == det, "determinant %r, expected %s", m.determinant, det)
        check(m.flipped is (det < 0), "flipped is %r with determinant %s", m.flipped, det)
        s = math.sqrt(abs(det))
        check(abs(m.scale - s) <= 1e-9 * max(1.0, s), "scale %r, expected %r", m.scale, s)
    # values
    for m, f in ((a, fa), (b, fb), (c, fc), (TxMatrix.IDENTITY, ident)):
        well_formed(m, f, "operand afterwards")
    twin = make(ra, (hows[0] + 1) % 5)
    check(a == twin and hash(a) == hash(twin), "equal matrices do not compare or hash equal")
    check((a == b) == (fa == fb), "== of different matrices is %r", a == b)
    raises(Exception, "assigning to a matrix entry", _assign, a)
    same(fr(copy.deepcopy(a)), fa, "copied matrix")
    check(isinstance(pickle.loads(pickle.dumps(a)), TxMatrix), "pickled matrix")
    lin = (fa[0][0], fa[0][1], fa[1][0], fa[1][1])
    t.nontrivial((fa[0][2] or fa[1][2]) and (fb[0][2] or fb[1][2]) and not (lin[1] == lin[2] == 0 and lin[0] == lin[3]))
    t.label("flipped" if a.flipped else "singular" if a.determinant == 0 else "proper")


def _assign(m):
    m[0] = (5, 5, 5)


def constants(case, t):
    x, y, i, j = case
    fx, fy = Fraction(x), Fraction(y)
    same(pt(TxMatrix.IDENTITY.sample(x, y), "identity"), (fx, fy), "identity")
    same(pt(TxMatrix.HFLIP.sample(x, y), "flip"), (-fx, fy), "horizontal flip")
    same(pt(TxMatrix.VFLIP.sample(x, y), "flip"), (fx, -fy), "vertical flip")
    check(len(TxMatrix.ROTATE) == 4, "%d rotations", len(TxMatrix.ROTATE))
    q = [(fx, fy), (-fy, fx), (-fx, -fy), (fy, -fx)]
    for n, m in enumerate(TxMatrix.ROTATE):
        same(pt(m.sample(x, y), "rotation"), q[n], "rotation %d" % n)
        well_formed(m, fr(m), "rotation %d" % n)
        check(not m.flipped and m.determinant == 1, "rotation %d: determinant %r", n, m.determinant)
    same(fr(TxMatrix.ROTATE[i] * TxMatrix.ROTATE[j]), fr(TxMatrix.ROTATE[(i + j) % 4]), "product of rotations %d and %d" % (i, j))
    same(fr(TxMatrix.HFLIP * TxMatrix.VFLIP), fr(TxMatrix.ROTATE[2]), "product of both flips")
    same(fr(TxMatrix.ROTATE[i] * TxMatrix.HFLIP), fr(TxMatrix.HFLIP * TxMatrix.ROTATE[-i % 4]), "rotation and flip")
    t.nontrivial(x and y)


def rejected(case, t):
    rows, kind, i, j, v = case
    rows = [list(r) for r in rows] + [[0, 0, 1]]
    if kind == "value":
        rows[i][j] = v
    elif kind == "last":
        rows[2] = [[0, 0, 2], [1, 0, 1], [0, 3.5, 1], [0, 0, 0], [0, 0, -1], [1, 0, 0]][i * 2 + j % 2]
    elif kind == "short row":
        del rows[i][j]
    elif kind == "long row":
        rows[i].insert(j, 0)
    elif kind == "few rows":
        del rows[i]
    else:
        rows.insert(i, [0, 0, 1])
    raises(Exception, "matrix %r" % (rows,), TxMatrix, rows)
    t.nontrivial()
    t.label(kind)


num = st.one_of(st.integers(-8, 8), st.integers(-1000, 1000), st.integers(-800, 800).map(lambda n: n / 8), st.sampled_from([0, 1, -1, 0.5, 2, 48, -48.0]))
unit = st.sampled_from([((1, 0), (0, 1)), ((-1, 0), (0, 1)), ((0, -1), (1, 0)), ((0, 1), (1, 0)), ((2, 0), (0, 2)), ((0.0, 1.0), (-1.0, 0.0))])
rows_any = st.tuples(st.tuples(num, num, num), st.tuples(num, num, num))
def _scaled(v):
    m, e, a, b = v
    return ((m[0] * 2.0 ** e, m[1] * 2.0 ** e, a), (m[2] * 2.0 ** e, m[3] * 2.0 ** e, b))


_s = st.integers(-8, 8)
rows_wide = st.tuples(st.tuples(_s, _s, _s, _s), st.integers(-10, 4), num, num).map(_scaled)
rows = st.one_of(rows_any, rows_any, rows_wide, st.builds(lambda u, a, b: (u[0] + (a,), u[1] + (b,)), unit, num, num))
point = st.tuples(num, num)
SUBS = [
    Sub("algebra", lambda: st.tuples(rows, rows, rows, st.tuples(*[st.integers(0, 4)] * 3), num, point, point), algebra, 12000),
    Sub("constants", lambda: st.tuples(num, num, st.integers(0, 3), st.integers(0, 3)), constants, 2000),
    Sub("rejected", lambda: st.tuples(rows, st.sampled_from(["value", "last", "short row", "long row", "few rows", "many rows"]),
                                      st.integers(0, 2), st.integers(0, 2), st.sampled_from([None, "1", b"1", 1j, (1,)])), rejected, 2000),
]
