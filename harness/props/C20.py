from dustmaker.level import Level
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, same
from .. import gen
from ..model import levelview, mkent, mkprop, mklevel
from .C14 import special_ent

ID = "C20"
RULE = "some entity refers to another existing entity"
ASSUMPTIONS = ["entity ids are 1 or more (0 is the documented 'no entity')",
               "entities are told apart by a tag variable, props by their sprite index"]

# etype -> (variable, element tag, is array)
REFS = {"camera_node": ("c_node_ids", "u", True), "level_end": ("ent_list", "u", True), "enemy_key": ("door", "u", False),
        "AI_controller": ("puppet_id", "u", False), "custom_score_book": ("level_list_id", "i", False)}


def build(spec, tag):
    """spec: {"ents": [(id, ent, refs or None)], "props": [id], "bprops": [id]}"""
    lv = Level()
    ids = [e[0] for e in spec["ents"]]
    for n, (eid, ent, refs) in enumerate(spec["ents"]):
        vs = [(k, v) for k, v in ent[1][1] if k not in ("tagg",)]
        ref = REFS.get(ent[0])
        if ref:
            name, et, arr = ref
            vs = [(k, v) for k, v in vs if k != name]
            if refs is not None:
                vals = [resolve(r, ids) for r in refs]
                if et == "i":
                    vals = [min(v, 2**31 - 1) for v in vals]
                if arr:
                    vs.insert(len(vs) // 2, (name, ("a", et, tuple((et, v) for v in vals))))
                elif vals:
                    vs.insert(len(vs) // 2, (name, (et, vals[0])))
        vs.append(("tagg", ("s", b"%s%d" % (tag, n))))
        lv.add_entity(n * 10.0, -n * 7.0, mkent((ent[0], ("d", tuple(vs))) + ent[2:]), eid)
    for kind, target in (("props", lv), ("bprops", lv.backdrop)):
        for n, pid in enumerate(spec[kind]):
            target.add_prop(n % 20, n * 3.0, -n * 5.0, mkprop((1, n * 77 & 0xFFFF, False, bool(n & 1), 32, tag[0], n, n, 3)), pid)
    return lv


def resolve(r, ids):
    if isinstance(r, tuple):
        return max(0, ids[r[0] % len(ids)] + r[1])
    return r


def tag_of(e):
    return dict(e[1][1])["tagg"][1]


def check_refs(got, before, what):
    """Entities of `before` (a view) found by tag in `got`; returns the id map."""
    by_tag = {tag_of(e): (i, x, y, e) for i, (x, y, e) in got["ents"].items()}
    idmap = {}
    for i, (x, y, e) in before["ents"].items():
        if tag_of(e) not in by_tag:
            raise Violation("%s: entity %r (%s) is missing" % (what, i, e[0]))
        idmap[i] = by_tag[tag_of(e)][0]
    for i, (x, y, e) in before["ents"].items():
        ni, nx, ny, ne = by_tag[tag_of(e)]
        same((nx, ny, ne[0]) + tuple(ne[2:]), (x, y, e[0]) + tuple(e[2:]), "%s: entity %r" % (what, i))
        ov, nv = dict(e[1][1]), dict(ne[1][1])
        ref = REFS.get(e[0])
        if ref:
            name, et, arr = ref
            o = ov.pop(name, None)
            n = nv.pop(name, None)
            if arr:
                want = ("a", et, tuple((et, idmap.get(v[1], 0)) for v in o[2])) if o else ("a", et, ())
                n = n if n is not None else ("a", et, ())
            else:
                want = (et, idmap.get(o[1], 0)) if o else (et, 0)
                n = n if n is not None else (et, 0)
            same(n, want, "%s: %s of entity %r, ids %r" % (what, name, i, idmap))
        same(nv, ov, "%s: variables of entity %r (%s)" % (what, i, e[0]))
    return idmap


def check_props(got, before, what):
    for kind in ("props", "bprops"):
        new = {v[3][5:8]: (i, v) for i, v in got[kind].items()}
        check(len(new) == len(got[kind]), "%s: duplicate %s", what, kind)
        for i, v in before[kind].items():
            if v[3][5:8] not in new:
                raise Violation("%s: %s %r is missing" % (what, kind, i))
            same(new[v[3][5:8]][1], v, "%s: %s %r" % (what, kind, i))


def distinct(view, what, start=None):
    ids = [*view["ents"], *view["props"], *view["bprops"]]
    check(len(set(ids)) == len(ids), "%s: ids not distinct: %r", what, sorted(ids))
    if start is not None and ids:
        check(min(ids) == start, "%s: smallest id %d, requested minimum %d", what, min(ids), start)
    return ids


def interesting(view):
    n = 0
    for i, (x, y, e) in view["ents"].items():
        ref = REFS.get(e[0])
        if ref:
            v = dict(e[1][1]).get(ref[0])
            vals = [] if v is None else [q[1] for q in v[2]] if ref[2] else [v[1]]
            n += sum(q in view["ents"] for q in vals)
    return n


def remap(case, t):
    spec, mins = case
    lv = build(spec, b"s")
    first = levelview(lv)
    nt = interesting(first)
    for m in mins:
        before = levelview(lv)
        if m == "max":
            m = max([100, *before["ents"], *before["props"], *before["bprops"]]) // 2
        if m is None:
            lv.remap_ids()
        else:
            lv.remap_ids(m)
        got = levelview(lv)
        what = "after remap_ids(%s)" % m
        for k in ("ents", "props", "bprops"):
            check(len(got[k]) == len(before[k]), "%s: %d %s, were %d", what, len(got[k]), k, len(before[k]))
        distinct(got, what, 100 if m is None else m)
        check_refs(got, before, what)
        check_props(got, before, what)
        same({k: got[k] for k in ("tiles", "btiles", "vars", "sshot")}, {k: before[k] for k in ("tiles", "btiles", "vars", "sshot")}, what)
    t.nontrivial(nt)
    for _, e, _ in spec["ents"]:
        t.label(e[0]) if e[0] in REFS else None


def merge(case, t):
    sa, sb, again = case
    a, b = build(sa, b"a"), build(sb, b"b")
    va, vb = levelview(a), levelview(b)
    nt = interesting(va) + interesting(vb)
    a.merge(b)
    got = levelview(a)
    what = "after merge"
    same(levelview(b), vb, what + ": the merged level")
    for k in ("ents", "props", "bprops"):
        check(len(got[k]) == len(va[k]) + len(vb[k]), "%s: %d %s, were %d and %d", what, len(got[k]), k, len(va[k]), len(vb[k]))
    check_refs(got, va, what + " (own entities)")
    check_props(got, va, what + " (own props)")
    for k in ("ents", "props", "bprops"):
        for i, v in vb[k].items():
            check(i in got[k], "%s: merged %s %d has another id", what, k, i)
            same(got[k][i], v, "%s: merged %s %d" % (what, k, i))
    own = set(got["ents"]) - set(vb["ents"]) | set(got["props"]) - set(vb["props"]) | set(got["bprops"]) - set(vb["bprops"])
    check(not own & (set(vb["ents"]) | set(vb["props"]) | set(vb["bprops"])), "%s: own and merged ids overlap", what)
    if again is not None:
        before = got
        a.remap_ids(again)
        got = levelview(a)
        distinct(got, "remap after merge", again)
        check_refs(got, before, "remap after merge")
        check_props(got, before, "remap after merge")
    t.nontrivial(nt)


ref = st.one_of(st.tuples(st.integers(0, 20), st.just(0)), st.tuples(st.integers(0, 20), st.just(0)),
                st.tuples(st.integers(0, 20), st.integers(-2, 2)), st.integers(0, 130), gen.ints(0, 2**31))
refs = st.one_of(st.none(), st.lists(ref, min_size=1, max_size=4), gen.many(ref, 2, 30), gen.many(ref, 2, 500))
eids = st.one_of(st.integers(1, 20), st.integers(95, 115), gen.ints(1, 2**30))
reffing = st.sampled_from(sorted(REFS)).flatmap(lambda et: st.builds(gen._ent, st.just(et), gen.typed_vars(et), st.binary(min_size=4, max_size=4)))
ent = st.one_of(reffing, reffing, reffing, gen.typed_ent)


run_ids = st.tuples(st.one_of(st.integers(1, 20), st.integers(95, 115)), st.one_of(gen.size(1, 40, 14), gen.size(1, 40, 14), gen.size(1, 40, 14), gen.size(1, 600, 14)), st.booleans()).map(
    lambda v: list(range(v[0], v[0] + v[1]))[::-1 if v[2] else 1])


def specs(n=7):
    """Objects with arbitrary ids, sometimes with long runs of consecutive ids."""
    run = st.integers(0, 5).flatmap(lambda k: st.none() if k else st.tuples(ent, refs, run_ids))
    pids = lambda m: st.integers(0, 5).flatmap(lambda k: st.lists(eids, max_size=m, unique=True) if k else run_ids)

    def join(v):
        ents, run, props, bprops = v
        if run:
            have = {e[0] for e in ents}
            ents = ents + [(i, run[0], run[1]) for i in run[2] if i not in have]
        return {"ents": ents, "props": props, "bprops": bprops}
    return st.tuples(st.lists(st.tuples(eids, ent, refs), min_size=1, max_size=n, unique_by=lambda e: e[0]), run, pids(4), pids(3)).map(join)


mins = st.one_of(st.none(), st.integers(0, 30), st.integers(90, 120), st.just("max"), gen.ints(1, 2**20))
SUBS = [
    Sub("remap", lambda: st.tuples(specs(), st.lists(mins, min_size=1, max_size=3)), remap, 4500),
    Sub("merge", lambda: st.tuples(specs(5), specs(5), st.one_of(st.none(), st.integers(1, 120))), merge, 2200),
]
