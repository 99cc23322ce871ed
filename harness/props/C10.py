import copy
import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import EntityData, EntityFrame, IntentStream, PlayerData, Replay
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen, replays

ID = "C10"
RULE = "the replay has an input stream with values or an entity with frames"


def nontriv(spec):
    return any(r for p in spec["players"] for _, r in p[1]) or any(f for _, f in spec["entities"])


def roundtrip(case, t):
    spec, pre, known, post = case
    rep = replays.mkreplay(spec)
    before = copy.deepcopy(rep)
    s = io.BytesIO(b"\xEE" * pre)
    s.seek(pre)
    w = DFWriter(s, noclose=True)
    if spec["force"]:
        w.write_replay(rep, force_username=True)
    else:
        w.write_replay(rep)
    end = w.bit_tell()
    w.close()
    check(rep == before, "writing changed the replay")
    data = s.getvalue()
    same(end, 8 * len(data), "writer position")
    r = DFReader(io.BytesIO(data + post))
    r.bit_seek(8 * pre)
    got = r.read_replay(known_length=len(data) - pre) if known else r.read_replay()
    replays.check_replay(got, spec)
    same(r.bit_tell(), 8 * len(data), "reader position")
    # and again from what was read
    w = DFWriter(io.BytesIO())
    w.write_replay(got)
    w.flush()
    got2 = DFReader(io.BytesIO(w.data.getvalue())).read_replay()
    replays.check_replay(got2, spec)
    t.nontrivial(nontriv(spec))
    t.label("v%d" % spec["version"])
    if any(n > 255 for p in spec["players"] for _, r in p[1] for _, n in r):
        t.label("long-run")


def resolution(case, t):
    frames, mouse = case
    rep = Replay(version=4, frames=9, players=[PlayerData(intents={IntentStream.MOUSE_X: [m for m, _ in mouse], IntentStream.MOUSE_Y: [m for _, m in mouse]})],
                 entities={2: EntityData([EntityFrame(*f) for f in frames])})
    w = DFWriter(io.BytesIO())
    w.write_replay(rep)
    w.flush()
    got = DFReader(io.BytesIO(w.data.getvalue())).read_replay()
    with observing("replay"):
        same(len(got.entities[2].frames), len(frames), "number of frames")
        for f, g in zip(frames, got.entities[2].frames):
            check(g.frame == f[0], "frame number")
            for a, b, step in ((f[1], g.x_pos, 0.1), (f[2], g.y_pos, 0.1), (f[3], g.x_speed, 0.01), (f[4], g.y_speed, 0.01)):
                check(abs(a - b) <= step * 0.5 + 1e-6, "stored %r as %r", a, b)
        for i, pair in enumerate(mouse):
            for stream, v in zip((IntentStream.MOUSE_X, IntentStream.MOUSE_Y), pair):
                g = got.players[0].get_intent_value(stream, i)
                check(abs(g - v) <= 0.5 / 32767 + 1e-9, "mouse position %r stored as %r at frame %d", v, g, i)
    t.nontrivial(bool(frames or mouse))


coord = st.one_of(st.floats(-1e6, 1e6), st.integers(-1000, 1000).map(float), st.floats(-3, 3))
SUBS = [
    Sub("roundtrip", lambda: st.tuples(replays.replays(), st.integers(0, 9), st.booleans(), st.sampled_from([b"", b"", b"\x00", b"more data"])), roundtrip, 5200),
    Sub("streams", lambda: st.tuples(st.builds(lambda p, v: {"version": v, "user": b"", "force": False, "level": b"x", "frames": 1, "players": [p], "entities": []},
        st.integers(0, 10).flatmap(lambda s: replays.player([s])), st.sampled_from([1, 3, 4, 4])), st.just(0), st.booleans(), st.just(b"")), roundtrip, 5200),
    Sub("long-runs", lambda: st.tuples(st.builds(lambda p, v: {"version": v, "user": b"", "force": False, "level": b"x", "frames": 1, "players": [p], "entities": []},
        st.integers(0, 10).flatmap(lambda s: replays.player([s], True)), st.sampled_from([1, 3, 4, 4])), st.just(0), st.booleans(), st.just(b"")), roundtrip, 120, 600),
    Sub("long-tracks", lambda: st.tuples(replays.long_tracks, st.just(0), st.booleans(), st.just(b"")), roundtrip, 24, 160),
    Sub("multitudes", lambda: st.tuples(replays.multitudes, st.just(0), st.booleans(), st.just(b"")), roundtrip, 24, 160),
    Sub("many-changes", lambda: st.tuples(replays.changes, st.just(0), st.booleans(), st.just(b"")), roundtrip, 40, 160),
    Sub("resolution", lambda: st.tuples(st.lists(st.tuples(st.integers(0, 9999), coord, coord, coord, coord), max_size=3),
                                        st.lists(st.tuples(st.floats(0, 1), st.floats(0, 1)), max_size=4)), resolution, 3000),
]
