import io
import os
import pickle
import subprocess
import sys
import tempfile

import dustmaker
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from hypothesis import strategies as st

from ..engine import REPO, VERIF, Sub, check, same
from .. import encplan, gen
from ..model import expand, has_filth, levelview, mklevel, strip_filth

ID = "C04"
RULE = "the level has tiles, props or entities"


def content(spec):
    return bool(spec["tiles"] or spec["props"] or spec["ents"] or spec["btiles"] or spec["bprops"])


def same_bytes(got, want, what):
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        check(False, "%s: bytes differ at offset %d (lengths %d and %d)", what, i, len(got), len(want))


def to_stream(lv, stream, offset, noclose=True):
    stream.seek(offset)
    with DFWriter(stream, noclose=noclose) as w:
        w.write_level(lv)


def representable(spec):
    """Filth attributes that the file has no room for (tiles without any filth) removed."""
    spec = expand(spec)
    fix = lambda ts: [(l, x, y, t if has_filth(t) else strip_filth(t)) for l, x, y, t in ts]
    return dict(spec, tiles=fix(spec["tiles"]), btiles=fix(spec["btiles"]))


def snapshot(lv):
    """Everything a level holds, with the order of its dictionaries."""
    v = levelview(lv)
    v["order"] = [list(d) for d in (lv.tiles, lv.props, lv.entities, lv.backdrop.tiles, lv.backdrop.props, lv.variables)]
    return v


def writes(case, t):
    spec, offset, junk, mode = case
    spec = representable(spec)
    lv = mklevel(spec)
    before = snapshot(lv)
    first = dustmaker.write_level(lv)
    same(snapshot(lv), before, "level after being written")
    same_bytes(dustmaker.write_level(lv), first, "second write")
    same_bytes(dustmaker.write_level(mklevel(spec)), first, "write of an equal level")
    # other destinations
    fill = bytes([junk])
    if mode == "mem":
        s = io.BytesIO(fill * (offset + len(first) + 7))
        to_stream(lv, s, offset)
        out = s.getvalue()
        same_bytes(out[:offset], fill * offset, "bytes before the level")
        same_bytes(out[offset:offset + len(first)], first, "level written over old data")
        same_bytes(out[offset + len(first):], fill * 7, "bytes after the level")
    elif mode == "short":
        s = io.BytesIO(fill * offset + b"old data")
        to_stream(lv, s, offset)
        out = s.getvalue()
        same_bytes(out[:offset], fill * offset, "bytes before the level")
        same_bytes(out[offset:offset + len(first)], first, "level written at an offset")
    else:
        with tempfile.TemporaryDirectory(prefix="verif-c04-") as d:
            path = os.path.join(d, "level")
            with open(path, "wb") as f:
                f.write(fill * offset)
            if mode == "file":
                with open(path, "r+b") as f:
                    to_stream(lv, f, offset)
            else:
                with open(path, "r+b", buffering=0) as f:
                    to_stream(lv, f, offset)
            with open(path, "rb") as f:
                out = f.read()
        same_bytes(out[:offset], fill * offset, "bytes before the level")
        same_bytes(out[offset:], first, "level written to a file")
    same(snapshot(lv), before, "level after being written")
    # read again and write again
    lv2 = dustmaker.read_level(first)
    v2 = snapshot(lv2)
    same_bytes(dustmaker.write_level(lv2), first, "rewriting the level just read")
    same(snapshot(lv2), v2, "re-read level after being written")
    t.label(mode)
    t.nontrivial(content(spec))


def foreign(case, t):
    """Files from elsewhere: one rewrite reaches a fixed point, and the level is not disturbed by it."""
    spec, plan = case
    data, _, _ = encplan.build(spec, plan)
    lv = dustmaker.read_level(data)
    before = snapshot(lv)
    first = dustmaker.write_level(lv)
    same(snapshot(lv), before, "level after being written")
    same_bytes(dustmaker.write_level(lv), first, "second write")
    same_bytes(dustmaker.write_level(dustmaker.read_level(first)), first, "rewriting the level just read")
    t.nontrivial(content(spec))


def history(case, t):
    """What was written before, by the same or another writer, has no influence."""
    specs, shared, offset = case
    levels = [mklevel(representable(s)) for s in specs]
    alone = [dustmaker.write_level(lv) for lv in levels]
    s = io.BytesIO(b"x" * offset)
    s.seek(offset)
    if shared:
        with DFWriter(s, noclose=True) as w:
            for lv in levels:
                w.write_level(lv)
    else:
        for lv in levels:
            with DFWriter(s, noclose=True) as w:
                w.write_level(lv)
    same_bytes(s.getvalue()[offset:], b"".join(alone), "levels written one after another")
    same_bytes(b"".join(dustmaker.write_level(lv) for lv in reversed(levels)), b"".join(reversed(alone)), "writing in another order")
    s.seek(offset)
    r = DFReader(s)
    for a in alone:
        same_bytes(dustmaker.write_level(r.read_level()), a, "rewriting a level read from the sequence")
    t.nontrivial(any(content(x) for x in specs))


class Failing(io.BytesIO):
    """Fails in the n-th call that writes."""

    def __init__(self, n):
        super().__init__()
        self.left = n

    def write(self, b):
        self.left -= 1
        if self.left < 0:
            raise OSError(28, "injected: no space left on device")
        return super().write(b)


def faults(case, t):
    """A write that fails halfway is reported and leaves the level alone; the next one is as good as the first."""
    spec, n = case
    lv = mklevel(representable(spec))
    before = snapshot(lv)
    first = dustmaker.write_level(lv)
    s = Failing(10**9)
    w = DFWriter(s, noclose=True)
    w.write_level(lv)
    w.flush()
    calls = 10**9 - s.left
    s = Failing(n % calls)
    try:
        with DFWriter(s, noclose=True) as w:
            w.write_level(lv)
        check(False, "write error %d of %d was not reported", n % calls, calls)
    except OSError:
        pass
    same(snapshot(lv), before, "level after a write that failed")
    same_bytes(dustmaker.write_level(lv), first, "write after one that failed")
    t.nontrivial(content(spec))


CHILD = r"""
import sys, pickle, hashlib
sys.path[:0] = [%r, %r]
sys.dont_write_bytecode = True
from harness.model import mklevel
from harness.props.C04 import representable
import dustmaker
specs = pickle.load(sys.stdin.buffer)
out = [dustmaker.write_level(mklevel(representable(s))) for s in specs]
sys.stdout.buffer.write(pickle.dumps(out))
"""


def processes(case, t):
    """Another process, with other hash values, writes the same bytes."""
    specs, seed = case
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, "-B", "-c", CHILD % (VERIF, REPO)], input=pickle.dumps(specs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    here = [dustmaker.write_level(mklevel(representable(s))) for s in specs]
    check(p.returncode == 0, "writing in another process failed: %s", p.stderr.decode("utf-8", "replace")[-500:])
    for a, b in zip(pickle.loads(p.stdout), here):
        same_bytes(a, b, "level written by another process")
    t.nontrivial(any(content(s) for s in specs))


offsets = st.one_of(st.integers(0, 40), gen.size(0, 3000, 40), st.sampled_from([4095, 32768, 65536, 131072, 262147, 1 << 20]), gen.size(0, 300000, 5000))
SUBS = [
    Sub("destinations", lambda: st.tuples(gen.levels(few=True), offsets, st.sampled_from([0, 0xFF, 0xAA, 0x55]),
                                          st.sampled_from(["mem", "mem", "short", "file", "raw"])), writes, 1400),
    Sub("bulk", lambda: st.tuples(gen.levels(max_tiles=3, bulk=True), offsets, st.just(0xFF),
                                  st.sampled_from(["mem", "raw"])), writes, 50),
    Sub("foreign", lambda: st.tuples(gen.levels(few=True), encplan.plans), foreign, 900),
    Sub("history", lambda: st.tuples(st.lists(gen.levels(max_tiles=4, max_props=3, max_ents=2), min_size=2, max_size=3),
                                     st.booleans(), offsets), history, 350),
    Sub("faults", lambda: st.tuples(gen.levels(max_tiles=4, max_props=2, max_ents=2, few=True), st.integers(0, 5000)), faults, 500),
    Sub("processes", lambda: st.tuples(st.lists(gen.levels(few=True), min_size=1, max_size=6), st.integers(0, 99)), processes, 40, thorough=150),
]
