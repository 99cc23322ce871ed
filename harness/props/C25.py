import os

from dustmaker.cmd.save_convert import migrate_stats
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, observing, same
from .. import cli, gen
from .. import refcodec as R
from ..model import floaty, mkvars, quant, unordered, varsview

ID = "C25"
RULE = "the save has a score of a known level"
ASSUMPTIONS = ["the level groups are those of the game: four areas of four doors (none, wood, silver, gold) with four levels each"]

AREAS = """
downhill shadedgrove dahlia fields | momentum fireflyforest tunnels momentum2 | suntemple ascent summit grasscave | den autumnforest garden hyperdifficult
atrium secretpassage alcoves mezzanine | cave cliffsidecaves library courtyard | precarious treasureroom arena ramparts | moontemple observatory parapets brimstone
vacantlot sprawl development abandoned | park boxes chemworld factory | tunnel basement scaffold cityrun | clocktower concretetemple alley hideout
control ferrofluid titan satellite | vat venom security mary | wiringfixed containment orb pod | mary2 coretemple abyss dome
"""
GROUP = {lev.encode(): n for line in AREAS.strip().split("\n") for n, grp in enumerate(line.split("|")) for lev in grp.split()}
assert len(GROUP) == 64
KNOWN = sorted(GROUP)
BOOKS = ["citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook"]


def expected(stats):
    """(books, [score], used keys) from a vars spec"""
    d = dict(stats[1])
    out = {k: d[k] for k in BOOKS if k in d}
    scores, used = [], [0, 0, 0]
    for s in d.get("score", ("a", "d", ()))[2]:
        f = dict(s[1])
        g = GROUP.get(f["file_name"][1])
        if g is None:
            continue
        if g:
            used[g - 1] += 1
        scores.append({"rind": ("i", 0), "file_name": f["file_name"], "combo": f["combo"], "time": f["time"], "thorough": f["thorough"],
                       "best_time": f["best_time"], "overall": f["overall"], "key_type": ("i", g or 4)})
    red = d.get("red_used", ("i", 0))[1]
    one = lambda tag, v: ("a", tag, ((tag, v),))
    out.update({"k_root": one("s", b""), "k_wood_used": one("i", used[0]), "k_silver_used": one("i", used[1]), "k_gold_used": one("i", used[2]),
                "k_red_used": one("i", red), "k_ngplus": one("b", False)})
    return out, scores


def compare(got, stats, what):
    want, scores = expected(stats)
    got = dict(got[1])
    ks = got.pop("k_score", None)
    same({k: unordered(v) for k, v in got.items()}, {k: unordered(v) for k, v in want.items()}, what)
    check(ks is not None and ks[:2] == ("a", "d"), "%s: k_score is %r", what, ks)
    gs = [dict(s[1]) for s in ks[2]]
    names = [s["file_name"][1] for s in gs if "file_name" in s]
    check(names == sorted(names), "%s: scores not sorted by file name: %r", what, names)
    key = lambda s: repr(sorted(s.items()))
    same(sorted(gs, key=key), sorted(scores, key=key), what + ": scores")
    return scores


def convert(case, t):
    stats, exists = case
    data = R.encode_var_file(b"DF_STA", stats)
    with cli.scratch() as d:
        p = cli.put(d, "stats0", data)
        q = os.path.join(d, "stats1")
        if exists:
            cli.put(d, "stats1", b"x" * 5000)
        r = cli.run("saveconvert", p, q)
        check(r.ok, "conversion failed: %r", r)
        same(cli.get(p), data, "stats0 after conversion")
        try:
            got = floaty(R.decode_var_file(cli.get(q), b"DF_STA"))
        except R.RefError as e:
            raise Violation("stats1 does not follow the format: %s" % e) from e
    scores = compare(got, quant(stats), "stats1")
    t.nontrivial(scores)
    t.label("%d scores" % min(len(scores), 8))


def migrate(case, t):
    stats = case
    d = mkvars(stats)
    out = migrate_stats(d)
    with observing("stats"):
        scores = compare(varsview(out), stats, "migrated stats")
        same(varsview(d), stats, "the stats migrated")
    t.nontrivial(scores)


def failing(case, t):
    how, n, stats = case
    data = R.encode_var_file(b"DF_STA" if how != "header" else b"DF_CFG", stats)
    if how == "truncate":
        data = data[:n % (len(data) - 1)]
    with cli.scratch() as d:
        p = cli.put(d, "stats0", data)
        q = cli.put(d, "stats1", b"precious")
        r = cli.run("saveconvert", p, q, inject=cli.no_write_open() if how == "open" else None)
        check(not r.ok, "%s: conversion reported success", how)
        same(cli.get(q), b"precious", "existing stats1 after a failed conversion")
        same(cli.get(p), data, "stats0")
    t.nontrivial(True)
    t.label(how)


_i = st.one_of(st.integers(0, 500), gen.i32).map(lambda v: ("i", v))
_f = gen.floats.map(lambda v: ("f", v))
DECOR = [lambda n: n + b" ", lambda n: b" " + n, lambda n: n + b"\0", lambda n: n.upper(), lambda n: n.title(), lambda n: n[:-1], lambda n: n[1:],
         lambda n: n + b"2", lambda n: n + n, lambda n: n[::-1], lambda n: b"exec " + n, lambda n: n + b"_", lambda n: b"levels/" + n, lambda n: n + b"\n"]
near = st.tuples(st.sampled_from(KNOWN), st.sampled_from(DECOR)).map(lambda p: p[1](p[0]))
fname = st.one_of(st.sampled_from(KNOWN), near, st.sampled_from(KNOWN), st.sampled_from(KNOWN), st.sampled_from(KNOWN + [b"newtutorial1", b"Downhill", b"downhill2", b"", b"exec func"]),
                  gen.byte_strings(10)).map(lambda v: ("s", v))


@st.composite
def score(draw, name=None):
    kvs = [("file_name", name if name else draw(fname)), ("combo", draw(_i)), ("time", draw(_f)), ("thorough", draw(_f)),
           ("best_time", draw(_f)), ("overall", draw(_i))]
    if draw(st.integers(0, 3)) == 0:
        kvs.append(("rind", ("i", draw(st.integers(-5, 5)))))
        kvs.append(("key_type", ("i", draw(st.integers(-5, 5)))))
    if draw(st.booleans()):
        kvs = draw(st.permutations(kvs))
    return ("d", tuple(kvs))


USED = set(BOOKS) | {"score", "red_used", "virtualbook", "virtualbookk"}


@st.composite
def saves(draw):
    kvs = []
    for b in draw(st.lists(st.sampled_from(BOOKS), max_size=4, unique=True)):
        kvs.append((b, draw(gen.var(2))))
    if draw(st.integers(0, 9)):
        if draw(st.integers(0, 6)) == 0:  # most of the game
            names = draw(st.permutations(KNOWN))[:draw(st.integers(20, 64))]
            sc = []
            base = dict(draw(score())[1])
            for n, nm in enumerate(names):
                b2 = dict(base, file_name=("s", nm), combo=("i", n))
                sc.append(("d", tuple(b2.items())))
        else:
            sc = draw(st.lists(score(), max_size=8))
            if sc and draw(st.integers(0, 3)) == 0:  # the same levels again and again
                sc = [sc[(i * i) % len(sc)] for i in range(draw(gen.size(1, 140, 30)))]
        kvs.append(("score", ("a", "d", tuple(sc))))
    if draw(st.booleans()):
        kvs.append(("red_used", ("i", draw(st.one_of(st.integers(0, 60), gen.i32)))))
    for k, v in draw(gen.struct(2, 3))[1]:
        if k not in USED and k not in dict(kvs):
            kvs.append((k, v))
    if draw(st.booleans()):
        kvs = draw(st.permutations(kvs))
    return ("d", tuple(kvs))


SUBS = [
    Sub("convert", lambda: st.tuples(saves(), st.booleans()), convert, 3500),
    Sub("migrate", saves, migrate, 3000),
    Sub("failures", lambda: st.tuples(st.sampled_from(["truncate", "header", "open"]), st.integers(0, 10**6), saves()), failing, 400),
]
