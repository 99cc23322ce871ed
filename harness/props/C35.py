import copy
import io
import math
import pickle

import dustmaker
from dustmaker import variable as V
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.exceptions import LevelException
from dustmaker.level import LevelType
from dustmaker.tile import TileSpriteSet
from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from ..model import ENT_TABLE, ETYPE_CLASS, kscale, levelview, mkent, mklevel, mkprop, mktile, q128, quant_float, ptrunc
from .C04 import same_bytes
from .C16 import biggest
from .C21 import EDITS, edit

ID = "C35"
RULE = "at least two edits changed the level and one of them came after a checkpoint"
ASSUMPTIONS = ["what the format cannot hold (filth outside layer 19 or on tiles without filth, fractions of props, finer steps of numbers) is rounded away in every variant before a checkpoint",
               "the order of the dictionaries of props and entities, which a file does not keep, is made equal before ids are assigned"]


def settle_var(v):
    if isinstance(v, V.VariableFloat):
        v.value = quant_float(v.value)
    elif isinstance(v, V.VariableVec2):
        v.value = (quant_float(v.value[0]), quant_float(v.value[1]))
    elif isinstance(v, V.VariableStruct):
        for x in v.value.values():
            settle_var(x)
    elif isinstance(v, V.VariableArray):
        for x in v.value[1]:
            settle_var(x)


def settle(lv):
    """Rounds, in place, everything to what a level file can hold."""
    for l in (lv, lv.backdrop):
        for k, t in l.tiles.items():
            for e in t.edge_data:  # documented to be within 90; the negative of -128 does not fit
                e.angles = tuple(max(-120, min(120, a)) for a in e.angles)
                e.filth_angles = tuple(max(-120, min(120, a)) for a in e.filth_angles)
            if k[0] != 19 or not any(e.filth_sprite_set for e in t.edge_data):
                for e in t.edge_data:
                    e.filth_sprite_set, e.filth_spike = TileSpriteSet.NONE_0, False
                    e.filth_caps, e.filth_angles = (False, False), (0, 0)
        for i, (layer, x, y, p) in l.props.items():
            l.props[i] = (layer, ptrunc(x), ptrunc(y), p)
            p.scale = kscale(round(math.log(p.scale) / math.log(50.0) * 24.0 + 32))
        l.props = dict(sorted(l.props.items()))
    for i, (x, y, e) in lv.entities.items():
        lv.entities[i] = (q128(x), q128(y), e)
        for v in e.variables.values():
            settle_var(v)
    lv.entities = dict(sorted(lv.entities.items()))
    for v in lv.variables.values():
        settle_var(v)


ROUTES = ["bytes", "file", "regions", "meta", "deepcopy", "pickle", "kept", "parts"]


def refresh(lv, data, route):
    """The same level, by another route."""
    if route == "kept":
        return lv
    if route == "deepcopy":
        return copy.deepcopy(lv)
    if route == "pickle":
        return pickle.loads(pickle.dumps(lv))
    if route == "parts":  # new dictionaries, same objects
        for l in (lv, lv.backdrop):
            l.tiles, l.props, l.entities = dict(reversed(l.tiles.items())), dict(l.props), dict(l.entities)
        lv.variables = dict(lv.variables)
        return lv
    if route == "bytes":
        return dustmaker.read_level(data)
    with DFReader(io.BytesIO(data)) as r:
        if route == "file":
            return r.read_level()
        out, offs = r.read_level_ex()
        if route == "regions":
            for _ in offs[:-1]:
                r.read_region(out)
            return out
        regions = r.read_bytes(offs[-1])
    with DFWriter(io.BytesIO()) as w:
        w.write_level_ex(out, offs, [regions[:7], regions[7:]])
        return dustmaker.read_level(w.data.getvalue())


def set_accessor(e, n):
    cls = ETYPE_CLASS.get(e.etype)
    acc = sorted((k, a) for k, a in ENT_TABLE[cls]["accessors"].items() if a.get("tag") in ("i", "u", "b", "s")) if cls else []
    if not acc:
        return False
    name, a = acc[n % len(acc)]
    setattr(e, name, {"b": bool(n & 1), "s": b"n%d" % n}.get(a["tag"], n))
    return True


def apply(lv, op, facts):
    """Applies one operation; returns what it reported."""
    kind = op[0]
    if kind == "edit":
        if op[1][0] in ("upscale", "translate", "rotate", "flip") and not facts["room"]:
            return "no room"
        return edit(lv, op[1])
    if kind == "upscale":
        if not facts["room"]:
            return "no room"
        lv.upscale(op[1], mat=TxMatrix.ROTATE[op[2]])
        return True
    if kind == "tile":
        (lv.backdrop if op[1] else lv).tiles[op[2]] = mktile(op[3])
        return True
    if kind == "copytile":
        l = lv.backdrop if op[1] else lv
        if not l.tiles:
            return False
        keys = sorted(l.tiles)
        a = keys[op[2] % len(keys)]
        l.tiles[(a[0], a[1] + op[3], a[2] + op[4])] = copy.deepcopy(l.tiles[a])
        return True
    if kind == "prop":
        try:
            return (lv.backdrop if op[1] else lv).add_prop(*op[2], mkprop(op[3]), op[4])
        except LevelException:
            return "taken"
    if kind == "ent":
        try:
            return lv.add_entity(*op[1], mkent(op[2]), op[3])
        except LevelException:
            return "taken"
    if kind == "move":
        if not lv.entities:
            return False
        i = sorted(lv.entities)[op[1] % len(lv.entities)]
        x, y, e = lv.entities[i]
        lv.entities[i] = (x + op[2], y - op[2], e)
        return True
    if kind == "accessor":
        if not lv.entities:
            return False
        return set_accessor(lv.entities[sorted(lv.entities)[op[1] % len(lv.entities)]][2], op[2])
    if kind == "level":
        lv.name = b"name%d" % op[1]
        lv.virtual_character = bool(op[1] & 1)
        lv.start_position(op[1] % 4 + 1).x = op[1]
        lv.level_type = (LevelType.NORMAL, LevelType.DUSTMOD, LevelType.KOTH)[op[1] % 3]
        if op[1] & 4:
            lv.sshot = b"shot%d" % op[1]
        return True
    if kind == "merge":
        other = mklevel(op[1])
        if op[3]:
            other = dustmaker.read_level(dustmaker.write_level(other))
        settle(other)
        lv.merge(other, remap_ids=op[2])
        return True
    if kind == "maxid":
        return lv.calculate_max_id(reset=bool(op[1] & 1))
    raise AssertionError(kind)


def view(lv):
    with observing("level"):
        for l in (lv, lv.backdrop):
            for i, (_, _, _, p) in l.props.items():
                p.scale = kscale(round(math.log(p.scale) / math.log(50.0) * 24.0 + 32))
    return levelview(lv)


def session(case, t):
    spec, steps, routes = case
    first = mklevel(spec)
    settle(first)
    data = dustmaker.write_level(first)
    levels = [first, dustmaker.read_level(data), copy.deepcopy(first), mklevel(spec)]
    settle(levels[3])
    dustmaker.write_level(levels[3])
    changes = after = ups = seen = 0
    for n, (op, check_here) in enumerate(steps):
        v = levelview(levels[0])
        nums = [biggest(e[2][1]) for e in v["ents"].values()] + [biggest(v["vars"])]
        facts = {"room": ups < 3 and max(nums, default=0) < 2**27 and all(p[3][4] < 44 for k in ("props", "bprops") for p in v[k].values())
                 and len(v["tiles"]) + len(v["btiles"]) < 400}
        ups += op[0] == "upscale" or op[0] == "edit" and op[1][0] == "upscale"
        for lv in levels:  # ids are given out in the order of the dictionaries
            for l in (lv, lv.backdrop):
                l.props = dict(sorted(l.props.items()))
            lv.entities = dict(sorted(lv.entities.items()))
        out = [apply(lv, op, facts) for lv in levels]
        for i, o in enumerate(out[1:]):
            check(o == out[0], "step %d (%s): %r, but %r for the level of variant %d", n, op[0], out[0], o, i + 1)
        if out[0] not in (False, "no room", "taken"):
            changes += 1
            after += seen
        for lv in levels:
            settle(lv)
        views = [view(lv) for lv in levels]
        for i, w in enumerate(views[1:]):
            same(w, views[0], "step %d (%s): level of variant %d" % (n, op[0], i + 1))
        if check_here is not None:
            datas = [dustmaker.write_level(lv) for lv in levels]
            for i, d in enumerate(datas[1:]):
                same_bytes(d, datas[0], "step %d (%s): file of variant %d" % (n, op[0], i + 1))
            for i in range(1, len(levels)):
                levels[i] = refresh(levels[i], datas[i], routes[(check_here + i) % len(routes)])
                same(view(levels[i]), views[0], "step %d: level after %s" % (n, routes[(check_here + i) % len(routes)]))
            seen = 1
            t.label("checkpoint")
        t.label(op[0] if op[0] != "edit" else op[1][0])
    t.nontrivial(changes >= 2 and after)


coord = st.one_of(st.integers(-40, 40), st.sampled_from([-257, -256, -17, -16, -1, 0, 15, 16, 255, 256]))
near_pos = st.integers(-4000, 4000).map(lambda n: n / 2)
opt_id = st.one_of(st.none(), st.none(), st.integers(1, 120), st.integers(100, 130), st.integers(90, 600))
ops = st.one_of(
    st.tuples(st.just("edit"), st.tuples(st.sampled_from(EDITS), st.integers(0, 99))),
    st.tuples(st.just("edit"), st.tuples(st.sampled_from(EDITS), st.integers(0, 99))),
    st.tuples(st.just("edit"), st.tuples(st.sampled_from(EDITS), st.integers(0, 99))),
    st.tuples(st.just("upscale"), st.integers(2, 3), st.integers(0, 3)),
    st.tuples(st.just("tile"), st.booleans(), st.tuples(st.sampled_from([19, 19, 0, 20, 7]), coord, coord), gen.tile),
    st.tuples(st.just("copytile"), st.booleans(), st.integers(0, 50), st.integers(-20, 20), st.integers(-20, 20)),
    st.tuples(st.just("prop"), st.booleans(), st.tuples(st.integers(0, 20), near_pos, near_pos), gen.prop, opt_id),
    st.tuples(st.just("ent"), st.tuples(near_pos, near_pos), gen.typed_ent, opt_id),
    st.tuples(st.just("move"), st.integers(0, 20), near_pos),
    st.tuples(st.just("accessor"), st.integers(0, 20), st.integers(0, 99)),
    st.tuples(st.just("level"), st.integers(0, 99)),
    st.tuples(st.just("merge"), gen.levels(typed_ents=True, near=True, max_tiles=3, max_props=2, max_ents=2, max_bprops=1, var_depth=1), st.booleans(), st.booleans()),
    st.tuples(st.just("maxid"), st.integers(0, 3)),
)


def low_ids(spec):
    for k in ("props", "bprops", "ents"):
        spec[k] = [o for o in spec[k] if o[0] < 2**30]
        for i, o in enumerate(spec[k]):  # ids close to each other, too
            n = 100 + o[0] % 37
            if o[0] % 2 and all(p[0] != n for p in spec[k]):
                spec[k][i] = (n,) + tuple(o[1:])
    return spec


def fix(case):
    spec, steps, routes = case
    low_ids(spec)
    for op, _ in steps:
        if op[0] == "merge":
            low_ids(op[1])
    return spec, steps, routes


sessions = st.tuples(gen.levels(typed_ents=True, near=True, max_tiles=5, max_props=2, max_ents=3, max_bprops=2, var_depth=1, few=True),
                     st.lists(st.tuples(ops, st.one_of(st.none(), st.integers(0, 9))), min_size=2, max_size=6),
                     st.lists(st.sampled_from(ROUTES), min_size=2, max_size=4)).map(fix)
SUBS = [Sub("sessions", lambda: sessions, session, 3500)]
