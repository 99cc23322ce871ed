import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import VariableType
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from .. import refcodec as R
from ..model import mkvar, mkvars, quant, varsview, vview

ID = "C06"
RULE = "the variable is a container with contents, or the encoding is not byte aligned"


def both_ways(v, off, pre):
    """Encode with dustmaker and compare bits; decode the reference encoding."""
    ref = R.BW()
    ref.put(off, pre)
    R.put_var(ref, v)
    ref.put(3, 5)
    want = ref.done()
    w = DFWriter(io.BytesIO())
    w.write(off, pre & ((1 << off) - 1)) if off else None
    obj = mkvar(v)
    w.write_variable(obj)
    w.write(3, 5)
    w.flush()
    got = w.data.getvalue()
    if got != want:
        check(False, "encoding differs at byte %d (lengths %d, %d)",
              next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))), len(got), len(want))
    with observing("variable after being written"):
        same(vview(obj), v, "variable after being written")
    r = DFReader(io.BytesIO(want))
    if off:
        same(r.read(off), pre & ((1 << off) - 1), "leading bits")
    back = r.read_variable(VariableType(R.TAGS[v[0]]))
    with observing("variable read back"):
        same(vview(back), quant(v), "variable read back")
    same(r.read(3), 5, "bits after the variable")
    if v[0] == "d":
        r = DFReader(io.BytesIO(want))
        r.read(off) if off else None
        with observing("variable map"):
            same(varsview(r.read_variable_map()), quant(v), "variable map read back")


def size_of(v):
    if v[0] == "d":
        return sum(1 + size_of(x) for _, x in v[1])
    if v[0] == "a":
        return sum(1 + size_of(x) for x in v[2])
    return 0


def tree(case, t):
    v, off, pre = case
    both_ways(v, off, pre)
    t.nontrivial(size_of(v) > 0 or off % 8)
    t.label(v[0])


def long_strings(case, t):
    kind, parts, off, name = case
    items = [("s", gen.pattern(n, s)) for n, s in parts]
    if kind == "a":
        v = ("a", "s", tuple(items))
    elif kind == "d":
        v = ("d", tuple((name + "k%d" % i if i else name, x) for i, x in enumerate(items)))
    elif kind == "ad":
        v = ("d", ((name, ("a", "s", tuple(items))), (name + "tail", ("i", -3))))
    else:
        v = ("a", "d", tuple(("d", ((name, x), (name + "y", ("b", True)))) for x in items))
    both_ways(v, off, 0x5A)
    if kind == "a" and parts[-1][0] and parts[-1][0] % 65535 == 0:
        # the count may also end the last string, without an empty continuation
        ref = R.BW()
        chunks = [x[1][i * 65535:(i + 1) * 65535] for x in items for i in range(1 + len(x[1]) // 65535)][:-1]
        ref.put(4, R.TAGS["s"])
        ref.put(16, len(chunks))
        for c in chunks:
            R.put_var(ref, ("s", c))
        ref.put(3, 5)
        r = DFReader(io.BytesIO(ref.done()))
        back = r.read_variable(VariableType(R.TAGS["a"]))
        with observing("variable read back"):
            same(vview(back), v, "array ended by its count")
        same(r.read(3), 5, "bits after the array")
        t.label("ended-by-count")
    t.nontrivial(any(n >= 65535 for n, _ in parts))
    for n, _ in parts:
        if n and n % 65535 == 0:
            t.label("exact-multiple")


def deep(case, t):
    shape, leaf, off = case
    v = leaf
    for kind in shape:
        v = ("d", (("k" + kind, v), ("z", ("i", 1)))) if kind == "d" else ("a", v[0], (v,))
    both_ways(v, off, 1)
    t.nontrivial(len(shape) > 5)


def big(case, t):
    tag, n, off = case
    mk = {"b": lambda i: ("b", i % 3 == 0), "i": lambda i: ("i", -i), "u": lambda i: ("u", i * 65537), "f": lambda i: ("f", i / 4 - 50),
          "v": lambda i: ("v", (i / 2, -i / 8)), "s": lambda i: ("s", gen.pattern(i % 7, i)), "d": lambda i: ("d", (("q", ("b", True)),)[:i % 2]),
          "a": lambda i: ("a", "b", (("b", True),) * (i % 3))}[tag]
    v = ("a", tag, tuple(mk(i) for i in range(n)))
    both_ways(v, off, 3)
    t.nontrivial(n > 20)
    if n > 1000:
        t.label(">1000")


def var_file(case, t):
    header, v, pre, ver, size = case
    want = R.encode_var_file(header, v)
    s = io.BytesIO(b"\xCC" * pre)
    s.seek(pre)
    w = DFWriter(s)
    m = mkvars(v)
    w.write_var_file(header, m)
    same(w.bit_tell(), 8 * (pre + len(want)), "position after the file")
    w.flush()
    same(s.getvalue(), b"\xCC" * pre + want, "variable file")
    with observing("variables"):
        same(varsview(m), v, "variables after being written")
    src = R.encode_var_file(header, v, ver, size)
    r = DFReader(io.BytesIO(b"\xCC" * pre + src))
    r.bit_seek(8 * pre)
    with observing("variable file contents"):
        same(varsview(r.read_var_file(header)), quant(v), "variable file read back")
    r = DFReader(io.BytesIO(src[len(header):]))
    with observing("variable file contents"):
        same(varsview(r.read_var_file(b"")), quant(v), "variable file read back without header")
    t.nontrivial(bool(v[1]))


def long_struct(lens, keys, seed):
    return ("d", tuple(("s%d" % i, ("s", gen.pattern(min(n, 600000), seed + i))) for i, n in enumerate(lens)) +
            tuple(("k%x" % i, ("u", i * 7)) for i in range(keys)))


LENS = st.one_of(st.sampled_from([65534, 65535, 65536, 131069, 131070, 131071, 196605, 0, 1]), gen.size(0, 140000, 50), gen.size(0, 140000, 50),
                 st.builds(lambda k, d: 65535 * k + d, st.sampled_from([4, 7, 8, 9, 12, 16, 17]), st.sampled_from([0, 0, -1, 1, 300])))
anyvar = st.one_of(gen.var(3), gen.struct(3), gen.array(3))
SUBS = [
    Sub("trees", lambda: st.tuples(anyvar, st.integers(0, 17), gen.ints(0, 2**17 - 1)), tree, 14000),
    Sub("leaves", lambda: st.tuples(gen.leaf, st.integers(0, 17), gen.ints(0, 2**17 - 1)), tree, 10000),
    Sub("long-strings", lambda: st.tuples(st.sampled_from(["a", "d", "ad", "da"]), st.lists(st.tuples(LENS, st.integers(0, 99)), min_size=1, max_size=3),
                                          st.sampled_from([0, 0, 0, 8, 3, 5]), st.sampled_from(["x", "k", "", "name_of_9", "a" * 30])), long_strings, 320),
    Sub("deep", lambda: st.tuples(st.text("da", min_size=1, max_size=90), gen.leaf, st.integers(0, 8)), deep, 1000),
    Sub("big-arrays", lambda: st.tuples(st.sampled_from("biufsvda"), gen.size(0, 3000, 300), st.integers(0, 8)), big, 400),
    Sub("huge-arrays", lambda: st.tuples(st.sampled_from("bbbs"), st.sampled_from([65535, 65534, 32768, 40000, 65535]),
                                         st.integers(0, 3)), big, 10, 40),
    Sub("var-files", lambda: st.tuples(st.one_of(st.sampled_from([b"DF_STA", b"DF_CFG", b"DF_FOG", b""]), gen.byte_strings(9)), gen.struct(2, 6),
                                       st.integers(0, 9), gen.ints(0, 65535), st.one_of(st.none(), gen.u32)), var_file, 4000),
    Sub("long-var-files", lambda: st.tuples(st.sampled_from([b"DF_STA", b"DF_CFG", b""]), st.builds(long_struct, st.lists(LENS, min_size=1, max_size=3),
                                            st.one_of(st.just(0), gen.size(0, 5000, 300)), st.integers(0, 9)), st.integers(0, 9), st.just(1), st.none()),
        var_file, 30, 200),
]
