import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, same
from .. import gen, replays
from .. import refcodec as R
from .C10 import nontriv

ID = "C11"
RULE = "the replay has an input stream with values or an entity with frames"


def trim(vals, neutral):
    vals = list(vals)
    while vals and vals[-1] == neutral:
        vals.pop()
    return vals


def write(case, t):
    spec = case
    rep = replays.mkreplay(spec)
    w = DFWriter(io.BytesIO())
    w.write_replay(rep, force_username=spec["force"])
    w.flush()
    data = w.data.getvalue()
    try:
        d = R.decode_replay(data)
    except R.RefError as e:
        raise Violation("written replay does not follow the format: %s" % e) from e
    same(d["version"], spec["version"], "version")
    same(d["username"], spec["user"] if spec["user"] or spec["force"] else None, "username header")
    same(d["level"], spec["level"], "level")
    same(d["frames"], spec["frames"], "frames")
    same(len(d["players"]), len(spec["players"]), "player count")
    for i, ((c, st_), sp) in enumerate(zip(d["players"], spec["players"])):
        same(c, sp[0], "character of player %d" % i)
        want = replays.streams_of(sp)
        for s, (bits, since, neutral) in enumerate(R.STREAMS):
            if spec["version"] < since:
                continue
            same(trim(st_[s], neutral), trim(want.get(s, []), neutral), "player %d stream %d" % (i, s))
            check(len(st_[s]) <= len(want.get(s, [])), "player %d stream %d has %d frames, %d given", i, s, len(st_[s]), len(want.get(s, [])))
    same([(u, [tuple(f) for f in fr]) for u, fr in d["entities"]], [(u, list(fr)) for u, fr in spec["entities"]], "entities")
    t.nontrivial(nontriv(spec))
    t.label("v%d" % spec["version"])


def read(case, t):
    spec, header, pieces, tails, zlevel, pre, known, count, cut = case

    def split(n):
        out, i = [], 0
        while n:
            p = min(n, pieces[i % len(pieces)])
            out.append(p)
            n -= p
            i += 1
        return out
    rep = {"version": spec["version"], "username": spec["user"] if header or spec["user"] else None, "level": spec["level"],
           "frames": spec["frames"], "players": [(p[0], replays.streams_of(p)) for p in spec["players"]],
           "entities": [(u, list(fr)) for u, fr in spec["entities"]]}
    if cut:  # the frames of an entity may be spread over several records
        ents = []
        for u, fr in spec["entities"]:
            ents.insert(len(ents) - len(ents) // cut, (u, list(fr)[:cut]))
            ents.append((u, list(fr)[cut:]))
        first = []
        for u, fr in ents:
            if u not in first:
                first.append(u)
        merged = {u: [f for v, fr in ents if v == u for f in fr] for u in first}
        rep["entities"] = ents
        spec = dict(spec, entities=[(u, merged[u]) for u in first])
        t.label("several records of an entity")
    if spec["version"] == 1:  # the field is not a player count yet
        rep["count"] = count
    data = R.encode_replay(rep, split if pieces else None, lambda p, s: tails[(p * 11 + s) % len(tails)], zlevel)
    r = DFReader(io.BytesIO(b"\x11" * pre + data + (b"" if known else b"tail")))
    r.bit_seek(8 * pre)
    got = r.read_replay(known_length=len(data) if known else None)
    replays.check_replay(got, spec)
    same(r.bit_tell(), 8 * (pre + len(data)), "reader position")
    t.nontrivial(nontriv(spec))
    t.label("v%d" % spec["version"])
    if pieces:
        t.label("split-runs")


SUBS = [
    Sub("written", lambda: replays.replays(), write, 6000),
    Sub("long-tracks", lambda: replays.long_tracks, write, 20, 160),
    Sub("read-long-tracks", lambda: st.tuples(replays.long_tracks, st.booleans(), st.just([]), st.just([0]), st.just(6), st.just(0), st.booleans(),
                                              st.just(1), st.just(0)), read, 20, 160),
    Sub("multitudes", lambda: replays.multitudes, write, 20, 160),
    Sub("read-multitudes", lambda: st.tuples(replays.multitudes, st.booleans(), st.just([]), st.just([0]), st.just(6), st.just(0), st.booleans(),
                                             st.just(1), st.just(0)), read, 20, 160),
    Sub("many-changes", lambda: replays.changes, write, 30, 160),
    Sub("read-many-changes", lambda: st.tuples(replays.changes, st.booleans(), st.just([]), st.just([0]), st.just(6), st.just(0), st.booleans(),
                                               st.just(1), st.just(0)), read, 30, 160),
    Sub("read", lambda: st.tuples(replays.replays(), st.booleans(), st.one_of(st.just([]), st.lists(st.one_of(st.integers(1, 255), st.just(255), st.just(1)), min_size=1, max_size=4)),
                                  st.lists(st.sampled_from([0, 0, 0, 1, 5]), min_size=1, max_size=4), st.sampled_from([6, 0, 1, 9]), st.integers(0, 9), st.booleans(),
                                  st.one_of(st.just(1), gen.ints(0, 65535)), st.sampled_from([0, 0, 0, 1, 2, 3])), read, 6000),
]
