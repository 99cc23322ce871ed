import io
import zlib

import dustmaker
from dustmaker.dfreader import DFReader
from dustmaker.exceptions import LevelException, LevelParseException
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, fail, raises
from .. import encplan, gen, replays
from .. import refcodec as R
from ..model import mklevel

ID = "C12"
RULE = "the input is a strict prefix or differs from a valid file"


def make(kind, body):
    """-> (bytes, reader function)"""
    if kind == "level":
        spec, plan, own = body
        data = dustmaker.write_level(mklevel(spec)) if own else encplan.build(spec, plan)[0]
        return data, dustmaker.read_level
    if kind == "var":
        header, v = body
        return R.encode_var_file(header, v), lambda b: DFReader(io.BytesIO(b)).read_var_file(header)
    spec, known = body
    rep = {"version": spec["version"], "username": spec["user"] if spec["force"] or spec["user"] else None, "level": spec["level"],
           "frames": spec["frames"], "players": [(p[0], replays.streams_of(p)) for p in spec["players"]],
           "entities": [(u, list(fr)) for u, fr in spec["entities"]]}
    data = R.encode_replay(rep)
    n = len(data)
    return data, lambda b: DFReader(io.BytesIO(b)).read_replay(known_length=n if known else None)


def prefixes(case, t):
    kind, body, picks = case
    data, fn = make(kind, body)
    fn(data)
    n = len(data)
    if n <= 130:
        cuts = range(n)
    else:
        cuts = sorted({p % n for p in picks} | {n - 1, n - 2, n - 5, 0, 1, 5, 6, 7, 15, 16})
    for c in cuts:
        try:
            fn(data[:c])
        except Exception:
            continue
        fail("%s cut to %d of %d bytes was read without an error", kind, c, n)
    t.label(kind)
    t.nontrivial(n > 10)


def magic(case, t):
    kind, body, i, x = case
    data, fn = make(kind, body)
    starts = {"level": [0, 16], "var": [0], "replay": [0]}[kind]
    if kind == "replay" and data[6:7] == b"2":
        starts.append(9 + int.from_bytes(data[7:9], "little"))
    s = starts[i // 6 % len(starts)]
    width = len(body[0]) if kind == "var" else 6
    if not width:
        return
    p = s + i % 6 % width
    bad = data[:p] + bytes([data[p] ^ x]) + data[p + 1:]
    e = raises(LevelParseException, "%s with byte %d of its header changed" % (kind, p), fn, bad)
    check(isinstance(e, LevelException), "the parse error is no LevelException")
    t.nontrivial(True)


def mutate(data, muts):
    b = bytearray(data)
    for op, pos, val in muts:
        if not b:
            break
        p = pos % len(b)
        if op == "flip":
            b[p] ^= 1 << (val & 7)
        elif op == "set":
            b[p] = val & 255
        elif op == "ff":
            b[p:p + 4] = b"\xff" * len(b[p:p + 4])
        elif op == "zero":
            b[p:p + 4] = bytes(len(b[p:p + 4]))
        elif op == "del":
            del b[p:p + 1 + val % 9]
        elif op == "ins":
            b[p:p] = bytes([val & 255]) * (1 + val % 5)
        elif op == "dup":
            b[p:p] = b[p:p + 1 + val % 40]
        elif op == "cut":
            del b[p:]
        elif op == "word":
            b[p:p + 4] = val.to_bytes(4, "little")[:len(b[p:p + 4])]
    return bytes(b)


def corrupt(case, t):
    """Must come back; what it returns or raises is free."""
    kind, body, muts, inner = case
    data, fn = make(kind, body)
    if inner and kind == "replay":
        try:
            hdr = len(data) - len(zlib_tail(data))
            bad = data[:hdr] + zlib.compress(mutate(zlib.decompress(data[hdr:]), muts), 1)
        except zlib.error:
            return
    elif inner and kind == "level":
        d = R.decode_level(data, regions=False)
        if not d["offsets"]:
            return
        base = d["base"]
        out = data[:base]
        ends = d["offsets"][1:] + [len(data) - base]
        for a, b in zip(d["offsets"], ends):
            reg = data[base + a:base + b]
            comp = zlib.compress(mutate(zlib.decompress(reg[17:]), muts), 1)
            out += (17 + len(comp)).to_bytes(4, "little") + reg[4:17] + comp
        bad = out
    else:
        bad = mutate(data, muts)
    try:
        fn(bad)
        t.label(kind + "-accepted")
    except Exception as e:
        if isinstance(e, Violation):
            raise
        t.label(kind + "-rejected")
    t.nontrivial(bad != data)


def zlib_tail(data):
    i = 7 + (2 + int.from_bytes(data[7:9], "little") + 7 if data[6:7] == b"2" else 0)
    n = int.from_bytes(data[i:i + 2], "little")
    j = i + 10 + n
    return data[j + 1 + data[j]:]


def random_bytes(case, t):
    kind, head, body = case
    data = head + body
    fn = {"level": lambda r: r.read_level(), "var": lambda r: r.read_var_file(b"DF_STA"), "replay": lambda r: r.read_replay(),
          "struct": lambda r: r.read_variable_map(), "meta": lambda r: r.read_level(metadata_only=True)}[kind]
    try:
        fn(DFReader(io.BytesIO(data)))
    except Exception as e:
        if isinstance(e, Violation):
            raise
    t.nontrivial(len(data) > 8)


small = dict(max_tiles=4, max_props=2, max_ents=2, var_depth=1)
level_body = st.tuples(gen.levels(**small), encplan.plans, st.booleans())
var_body = st.tuples(st.sampled_from([b"DF_STA", b"DF_CFG", b""]), gen.struct(2))
rep_body = st.tuples(replays.replays(2), st.booleans())
bodies = st.one_of(st.tuples(st.just("level"), level_body), st.tuples(st.just("level"), level_body), st.tuples(st.just("var"), var_body), st.tuples(st.just("replay"), rep_body))
muts = st.lists(st.tuples(st.sampled_from(["flip", "set", "ff", "zero", "del", "ins", "dup", "cut", "word"]), st.one_of(st.integers(0, 60), st.integers(0, 5000)), gen.u32), min_size=1, max_size=5)
heads = {"level": [b"DF_LVL\x2c\x00", b"DF_LVL\x2b\x00", b""], "var": [b"DF_STA", b"DF_STA\x01\x00"], "replay": [b"DF_RPL4", b"DF_RPL1\x01\x00", b"DF_RPL3\x01\x00", b"DF_RPL2"],
         "struct": [b""], "meta": [b"DF_LVL\x2c\x00"]}
SUBS = [
    Sub("prefixes", lambda: st.builds(lambda b, p: b + (p,), bodies, st.lists(st.integers(0, 10**6), min_size=4, max_size=12)), prefixes, 1500),
    Sub("magic", lambda: st.builds(lambda b, i, x: b + (i, x), bodies, st.integers(0, 11), st.integers(1, 255)), magic, 1000),
    Sub("corrupt", lambda: st.builds(lambda b, m, i: b + (m, i), bodies, muts, st.booleans()), corrupt, 4000),
    Sub("random", lambda: st.sampled_from(sorted(heads)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(heads[k]), st.one_of(st.binary(max_size=80), st.builds(
        gen.pattern, st.integers(0, 3000), st.integers(0, 10**6))))), random_bytes, 4000),
]
