"""Replay specs.

spec: {"version", "user": bytes, "force": bool, "level": bytes, "frames": int,
       "players": [(character, ((stream, ((stored value, run length), ...)), ...))],
       "entities": [(uid, ((frame, x10, y10, vx100, vy100), ...))]}
"""
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, MouseState, PlayerData, Replay
from hypothesis import strategies as st

from . import gen
from .engine import Violation, check, observing, same
from .refcodec import STREAMS


def to_value(stream, bits):
    if stream in (0, 1):
        return bits - 1
    if stream in (8, 9):
        return bits / 32767.0
    if stream == 10:
        return MouseState(bits)
    return bits


def values(runs):
    out = []
    for v, n in runs:
        out += [v] * n
    return out


def streams_of(player):
    return {s: values(runs) for s, runs in player[1]}


def mkreplay(spec):
    return Replay(
        version=spec["version"], username=spec["user"], level=spec["level"], frames=spec["frames"],
        players=[PlayerData(Character(p[0]), {IntentStream(s): [to_value(s, v) for v in vs] for s, vs in streams_of(p).items()})
                 for p in spec["players"]],
        entities={uid: EntityData([EntityFrame(f, x / 10.0, y / 10.0, vx / 100.0, vy / 100.0) for f, x, y, vx, vy in fr])
                  for uid, fr in spec["entities"]})


def check_replay(rep, spec, trimmed=True):
    """rep must say what spec says."""
    with observing("replay"):
        same(rep.version, spec["version"], "version")
        same(bytes(rep.username), spec["user"], "username")
        same(bytes(rep.level), spec["level"], "level")
        same(rep.frames, spec["frames"], "frame count")
        same(len(rep.players), len(spec["players"]), "number of players")
        for i, (pl, sp) in enumerate(zip(rep.players, spec["players"])):
            same(int(pl.character), sp[0], "character of player %d" % i)
            want = streams_of(sp)
            for s, (bits, since, neutral) in enumerate(STREAMS):
                stream = IntentStream(s)
                got = list(pl.intents.get(stream, []))
                if spec["version"] < since:
                    check(not got, "stream %s of a version %d replay has values", stream.name, spec["version"])
                    exp = []
                else:
                    exp = want.get(s, [])
                neut = to_value(s, neutral)
                for f, v in enumerate(exp):
                    g = pl.get_intent_value(stream, f)
                    if g != to_value(s, v):
                        raise Violation("player %d %s at frame %d is %r, expected %r" % (i, stream.name, f, g, to_value(s, v)))
                if len(got) > len(exp):
                    raise Violation("player %d %s has %d frames, expected %d" % (i, stream.name, len(got), len(exp)))
                for f in (len(exp), len(exp) + 1, len(exp) + 300, -1):
                    g = pl.get_intent_value(stream, f)
                    if g != neut:
                        raise Violation("player %d %s at frame %d (outside) is %r" % (i, stream.name, f, g))
                if got != [to_value(s, v) for v in exp[:len(got)]]:
                    raise Violation("player %d %s: stored values differ" % (i, stream.name))
            extra = set(pl.intents) - {IntentStream(s) for s in range(len(STREAMS))}
            check(not extra, "unknown streams %r", extra)
        same(list(rep.entities), [u for u, _ in spec["entities"]], "entity ids")
        for uid, fr in spec["entities"]:
            got = [(f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed) for f in rep.entities[uid].frames]
            same(got, [(f, x / 10.0, y / 10.0, vx / 100.0, vy / 100.0) for f, x, y, vx, vy in fr], "frames of entity %d" % uid)
        ents = dict(spec["entities"])
        for p in range(1, 5):
            for name, uid in (("player", 2 * p), ("camera", 2 * p + 1)):
                d = getattr(rep, "get_%s_entity_data" % name)(p)
                check((d is None) == (uid not in ents) and (d is None or d is rep.entities[uid]), "%s entity %d", name, p)


run_len = st.one_of(st.integers(1, 4), st.integers(1, 40), st.sampled_from([253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766]), gen.size(1, 1200, 40))
huge_run = st.one_of(st.sampled_from([32767, 32768, 65535, 65535, 65536, 65536, 65537, 65280, 16320]), gen.size(1, 140000, 65536))


def _stream(s, huge=False):
    bits, _, neutral = STREAMS[s]
    top = {8: 32767, 9: 32767, 0: 2, 1: 2}.get(s, (1 << bits) - 1)
    val = st.one_of(st.integers(0, min(top, 3)), gen.ints(0, top), st.just(neutral))
    if huge:
        return st.tuples(st.tuples(val, huge_run), st.lists(st.tuples(val, st.integers(1, 5)), max_size=2)).map(
            lambda v: (s, (v[0],) + tuple(v[1])) if len(v[1]) != 1 else (s, (v[1][0], v[0])))
    short = st.tuples(val, st.integers(1, 5))
    return st.one_of(*[st.lists(st.tuples(val, run_len), max_size=5)] * 5, gen.many(short, 5, 400)).map(tuple).map(lambda r: (s, r))


@st.composite
def player(draw, streams=None, huge=False):
    ch = draw(st.integers(0, 7))
    ss = draw(st.lists(st.integers(0, 10), max_size=4, unique=True)) if streams is None else streams
    return (ch, tuple(draw(_stream(s, huge)) for s in ss))


i32 = gen.i32
frame = st.tuples(gen.u32, i32, i32, i32, i32)
near_frame = st.tuples(st.integers(0, 5000), st.integers(-30000, 30000), st.integers(-30000, 30000), st.integers(-99999, 99999), st.integers(-99999, 99999))
entities = st.lists(st.tuples(st.one_of(st.integers(2, 9), st.integers(100, 900), gen.u32), gen.many(st.one_of(near_frame, frame), 4, 300).map(tuple)),
                    max_size=4, unique_by=lambda e: e[0])


def _crowd(v):
    """Many entities with a few frames each."""
    n, base, step, frames = v
    return [((base + i * step) & 0xFFFFFFFF, frames[i % len(frames)]) for i in range(n)]


crowds = st.tuples(gen.size(1, 300, 40), st.sampled_from([2, 100, 70000, 2**32 - 50]), st.sampled_from([1, 3, 257]),
                   st.lists(st.lists(near_frame, max_size=2).map(tuple), min_size=1, max_size=3)).map(_crowd)


def track(n, seed):
    """n frames of one entity."""
    out = []
    for i in range(n):
        k = (i % 32 * 2654435761 + seed * 40503) & 0xFFFFFFFF
        out.append((i * (1 + seed % 3), k % 60001 - 30000, k // 7 % 60001 - 30000, k // 11 % 9001 - 4500, k // 13 % 9001 - 4500))
    return tuple(out)


# entities with very many frames (a replay records one every frame or so)
tracks = st.lists(st.tuples(st.one_of(st.integers(2, 9), gen.u32),
                            st.builds(track, st.one_of(gen.size(1, 5000, 1000), gen.size(1, 70000, 65536)), st.integers(0, 9))),
                  min_size=1, max_size=2, unique_by=lambda e: e[0]).filter(lambda e: sum(len(f) for _, f in e) < 80000)
long_tracks = st.builds(lambda v, e, p: {"version": v, "user": b"", "force": False, "level": b"x", "frames": 70000, "players": [p], "entities": e},
                        st.sampled_from([1, 3, 4]), tracks, player([2]))
# streams that change very often
changes = st.builds(lambda v, s, n, a, more: {"version": v, "user": b"", "force": False, "level": b"x", "frames": 7, "entities": [],
                    "players": [(2, ((s, tuple((a[i % len(a)], 1) for i in range(n))),) + tuple(m for m in more if m[0] != s))]},
                    st.sampled_from([1, 3, 4]), st.sampled_from([0, 1, 2, 3, 4, 7, 8, 10]),
                    st.one_of(st.sampled_from([8192, 16384, 32768, 45000, 65536, 70000]), gen.size(1, 70000, 33000)),
                    st.sampled_from([(0, 1), (1, 0, 2), (2, 1)]), st.lists(_stream(9), max_size=1))
# very many entities or players
big_count = st.one_of(st.sampled_from([255, 256, 257, 1024, 4095, 4096, 4097, 8193, 16385, 32768, 65535]), gen.size(1, 9000, 4096), gen.size(1, 65535, 4096))
few_frames = st.lists(st.lists(near_frame, max_size=2).map(tuple), min_size=1, max_size=3)
multitudes = st.one_of(
    st.builds(lambda v, n, base, step, fr, p: {"version": v, "user": b"", "force": False, "level": b"x", "frames": 7, "players": [p], "entities": _crowd((n, base, step, fr))},
              st.sampled_from([1, 3, 4]), st.one_of(big_count, st.just(70000)), st.sampled_from([2, 100, 70000, 2**32 - 50]), st.sampled_from([1, 3, 257]), few_frames, player([2])),
    st.builds(lambda v, n, ps: {"version": v, "user": b"", "force": False, "level": b"x", "frames": 7, "players": [ps[i % len(ps)] for i in range(n)], "entities": []},
              st.sampled_from([3, 4]), gen.size(1, 5000, 300), st.lists(player(), min_size=1, max_size=3)))
entities = st.integers(0, 9).flatmap(lambda n, e=entities: crowds if n == 0 else e)
users = st.one_of(st.just(b""), gen.byte_strings(20), st.builds(gen.pattern, gen.size(0, 3000, 30), st.integers(0, 9)), st.just(b"DF_RPL4"),
                  st.builds(gen.pattern, st.sampled_from([255, 256, 257, 4096, 32767, 32768, 65534, 65535]), st.integers(0, 9)))


@st.composite
def replays(draw, max_players=4):
    ver = draw(st.sampled_from([4, 4, 3, 1]))
    np_ = 1 if ver == 1 else draw(st.sampled_from([1, 1, 2, 3, max_players, 0]))
    players = [draw(player()) for _ in range(np_)]
    if ver > 1 and players and draw(st.integers(0, 19)) == 0:
        players = [players[i * i % len(players)] for i in range(draw(gen.size(1, 300, 20)))]
    return {"version": ver, "user": draw(users), "force": draw(st.booleans()),
            "level": draw(st.one_of(gen.byte_strings(20).map(lambda b: b[:255]), st.builds(gen.pattern, gen.size(0, 255, 20), st.integers(0, 9)))),
            "frames": draw(gen.u32), "players": players, "entities": draw(entities)}
