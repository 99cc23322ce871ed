import copy
import itertools
from fractions import Fraction

import dustmaker
from dustmaker import entity as E
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape
from dustmaker.transform import TxMatrix
from dustmaker.variable import VariableInt, VariableString
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from ..model import ENT_TABLE, mkprop

ID = "C37"
RULE = "an entity of a user class went through a transformation, a renumbering or a file"
ASSUMPTIONS = ["user classes keep the constructor signature of Entity and derive from a documented class",
               "a class derived from a documented class has a type name of its own"]

_N = itertools.count()
LOG = []  # (tag, "transform", matrix) / (tag, "remap_ids", map), in call order


def tag_of(e):
    """Entities are told apart by a variable, those without variables by an attribute."""
    if hasattr(e, "tagname"):
        return e.tagname
    return e.variables["tagg"].value if "tagg" in e.variables else None


def make_class(base, named, style, prefix, name=None):
    """A user class. style: (calls the inherited transform, inherited remap_ids, has an __init__, hooks in a mixin)"""
    sup_t, sup_r, init, mixin = style
    parent = getattr(E, base)
    owner = []  # the class that holds the hooks

    def transform(self, mat):
        LOG.append((tag_of(self), "transform", mat))
        if sup_t:
            super(owner[0], self).transform(mat)

    def remap_ids(self, id_map):
        LOG.append((tag_of(self), "remap_ids", id_map))
        if sup_r:
            super(owner[0], self).remap_ids(id_map)
        if "friend" in self.variables:
            self.variables["friend"] = VariableInt(id_map.get(self.variables["friend"].value, 0))

    def __init__(self, *args, **kwargs):
        super(cls, self).__init__(*args, **kwargs)
        self.extra = ["made"]

    hooks = {"transform": transform, "remap_ids": remap_ids}
    body = {"user_init": init}
    if named:
        body["TYPE_IDENTIFIER"] = name or "%su%d" % (prefix, next(_N))
    if init:
        body["__init__"] = __init__
    if mixin:
        owner.append(type("Mixin", (), hooks))
        cls = type("User", (owner[0], parent), body)
    else:
        cls = type("User", (parent,), dict(body, **hooks))
        owner.append(cls)
    return cls


def exact(mat):
    return tuple(tuple(Fraction(c) for c in row) for row in mat)


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


UNIT = exact(((1, 0, 0), (0, 1, 0), (0, 0, 1)))
KEEP = ("rotation", "flip_x", "flip_y", "layer", "visible")


def session(case, t):
    classes, ents, ops = case
    made = [make_class(*c) for c in classes]
    del LOG[:]
    lv = Level()
    state = {}  # tag -> class
    names = itertools.count()
    ids = []

    def add(level, c, at, attrs, friend, prefix):
        cls = made[c % len(made)]
        tag = b"%s%d" % (prefix, next(names))
        bare = friend % 4 == 3
        obj = cls(None if bare else {"tagg": VariableString(tag), "friend": VariableInt(0)}, attrs[0], attrs[1] % 21, bool(attrs[1] & 32), bool(attrs[1] & 64), bool(attrs[1] & 128))
        i = level.add_entity(float(at[0]), float(at[1]), obj)
        state[tag] = cls
        ids.append(i)
        # an entity of the library with the same attributes beside it
        twin = E.Entity({"tagg": VariableString(b"twin" + tag)}, obj.rotation, obj.layer, obj.flip_x, obj.flip_y, obj.visible)
        level.add_entity(float(at[0]), float(at[1]), twin)
        if bare:
            obj.tagname = tag
        else:
            obj.variables["friend"].value = ids[friend % len(ids)] if friend % 5 else 7 + friend
        return obj

    for c, at, attrs, friend in ents:
        add(lv, c, at, attrs, friend, b"e")
    lv.tiles[(19, 2, 3)] = Tile(TileShape.BIG_1)
    worked = False
    for step, (op, arg) in enumerate(ops):
        where = "step %d (%s %r)" % (step, op, arg)
        before = snapshot(lv)
        del LOG[:]
        want = None
        if op == "rotate":
            lv.rotate(arg % 9 - 4)
            want = exact(TxMatrix.ROTATE[(arg % 9 - 4) % 4])
        elif op == "flip":
            (lv.flip_horizontal if arg % 2 else lv.flip_vertical)()
            want = exact(TxMatrix.HFLIP if arg % 2 else TxMatrix.VFLIP)
        elif op == "translate":
            lv.translate(arg * 48, -arg * 96)
            want = exact(((1, 0, arg * 48), (0, 1, -arg * 96), (0, 0, 1)))
        elif op == "transform":
            m = TxMatrix.ROTATE[arg % 4] * (TxMatrix.HFLIP if arg % 8 > 3 else TxMatrix.IDENTITY)
            m = m.translate(arg * 48, 48 * (arg % 7))
            lv.transform(m)
            want = exact(m)
        elif op == "upscale":
            f = 1 + arg % 3
            m = TxMatrix.ROTATE[arg % 4].translate(48 * (arg % 5), 0) if arg % 2 else TxMatrix.IDENTITY
            if len(lv.tiles) > 400:
                continue
            lv.upscale(f, mat=m)
            want = mul(exact(((f, 0, 0), (0, f, 0), (0, 0, 1))), exact(m))
        elif op in ("remap", "merge", "merge into new", "merge without"):
            other = None
            if op == "remap":
                lv.remap_ids(arg)
            else:
                other = Level()
                obj = add(other, arg, (5, 6), (arg & 0xFFFF, 18), arg // 4, b"o")
                obj.note = [arg]
                obj_id = ids[-1]
                if op == "merge without":
                    other.remap_ids(max([100, *lv.entities, *lv.props]) + 1 + arg)
                    obj_id = next(i for i, e in other.entities.items() if e[2] is obj)
                elif op == "merge into new":
                    lv, other = other, lv
                    before = snapshot(lv)
                oview = snapshot(other)
                del LOG[:]
                lv.merge(other, remap_ids=op != "merge without")
                check(all(k != "transform" for _, k, _ in LOG), "%s: transform was called", where)
            after = snapshot(lv)
            if other is not None:
                same(snapshot(other), oview, "%s: the merged-in level" % where)
                for tag, v in oview.items():
                    check(tag in after, "%s: entity %r is missing", where, tag)
                    same(after[tag], v, "%s: merged entity %r" % (where, tag))
                if op != "merge into new":
                    got = lv.entities[oview[tag_of(obj)]["id"]][2]
                    check(got is not obj and got.note == [arg] and got.note is not obj.note, "%s: the merged entity is not a full copy", where)
                if op == "merge without":
                    check(not LOG, "%s: remap_ids was called although no ids change", where)
            for tag, v in before.items():
                check(tag in after, "%s: entity %r is missing", where, tag)
                moved = {x["id"]: after[k]["id"] for k, x in before.items()}
                w = dict(v, id=after[tag]["id"])
                if tag in state and op != "merge without":
                    calls = [m for g, k, m in LOG if g == tag and k == "remap_ids"]
                    check(calls, "%s: remap_ids of %r was not called", where, tag)
                    for old in list(moved) + [7, 8, 11]:
                        cur = old
                        for m in calls:
                            cur = m.get(cur, 0)
                        check(cur == moved.get(old, 0), "%s: remap_ids of %r was told that %d becomes %d, it is %d", where, tag, old, cur, moved.get(old, 0))
                    if v["friend"] is not None:
                        w["friend"] = moved.get(v["friend"], 0)
                same(after[tag], w, "%s: entity %r" % (where, tag))
            worked = True
            continue
        elif op in ("reload", "redefine"):
            if op == "redefine":  # the last class of a name is the one used
                k = arg % len(made)
                if classes[k][1]:
                    new = make_class(*classes[k], name=made[k].TYPE_IDENTIFIER)
                    for tag, c in state.items():
                        if c is made[k]:
                            state[tag] = new
                            before[tag]["class"] = new
                    made[k] = new
            lv = dustmaker.read_level(dustmaker.write_level(lv))
            for tag, v in before.items():
                if v["bare"] and v["id"] in lv.entities:
                    lv.entities[v["id"]][2].tagname = tag
            check(not LOG, "%s: a file operation called %r", where, LOG[:1])
            after = snapshot(lv)
            for tag, v in before.items():
                check(tag in after, "%s: entity %r is missing", where, tag)
                w = dict(v)
                if tag in state and "TYPE_IDENTIFIER" not in vars(state[tag]):
                    w["class"] = E.Entity  # without a name of its own
                    state.pop(tag)
                same(after[tag], w, "%s: entity %r" % (where, tag))
            worked = True
            continue
        elif op == "copy":
            lv = copy.deepcopy(lv)
            same(snapshot(lv), before, where)
            continue
        elif op == "edges":
            lv.calculate_edge_visibility()
            lv.calculate_edge_caps()
            lv.calculate_max_id(reset=bool(arg % 2))
            check(not LOG, "%s called %r", where, LOG[:1])
            same(snapshot(lv), before, where)
            continue
        # a transformation
        after = snapshot(lv)
        check(set(after) == set(before), "%s: entities %r became %r", where, sorted(before), sorted(after))
        check(all(k != "remap_ids" for _, k, _ in LOG), "%s: remap_ids was called", where)
        for tag, v in before.items():
            w = dict(v)
            w["at"] = tuple(float(want[i][0] * Fraction(v["at"][0]) + want[i][1] * Fraction(v["at"][1]) + want[i][2]) for i in (0, 1))
            got = after[tag]
            if tag in state:
                total = UNIT
                calls = [m for g, k, m in LOG if g == tag]
                for m in calls:
                    total = mul(exact(m), total)
                check(calls or want == UNIT, "%s: transform of %r was not called", where, tag)
                same(total, want, "%s: the matrix given to %r" % (where, tag))
                sup_t = classes[made.index(state[tag])][2][0]
                for a in KEEP:
                    w[a] = after[b"twin" + tag][a] if sup_t and b"twin" + tag in after else v[a]
            else:
                for a in KEEP:
                    w[a] = got[a]
            same(got, w, "%s: entity %r" % (where, tag))
        worked = True
    t.nontrivial(worked)
    for op, _ in ops:
        t.label(op)


def snapshot(lv):
    with observing("entities"):
        out = {}
        for i, (x, y, e) in lv.entities.items():
            tag = tag_of(e)
            check(tag is not None and tag not in out, "entity %r appears twice or lost its variables", tag)
            out[tag] = dict({a: getattr(e, a) for a in KEEP}, id=i, at=(float(x), float(y)), etype=e.etype,
                            friend=e.variables["friend"].value if "friend" in e.variables else None)
            out[tag]["class"] = type(e)
            out[tag]["bare"] = hasattr(e, "tagname")
            if getattr(type(e), "user_init", False):
                check(e.extra == ["made"], "%r was not constructed by its class", tag)
        return out


PLAIN = ["Entity", "Entity", "Enemy", "EntityHittable", "Emitter", "Trigger", "EnemyLightPrism", "Apple", "CheckPoint"]


@st.composite
def cases(draw):
    cs = []
    for _ in range(draw(st.integers(1, 3))):
        base = draw(st.sampled_from(PLAIN))
        named = base != "Entity" or draw(st.integers(0, 3)) > 0
        cs.append((base, named, draw(st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans())),
                   draw(st.sampled_from(["usr_", "z_", "my_entity_with_a_long_name_", "entity"]))))
    ents = draw(st.lists(st.tuples(st.integers(0, 5), st.tuples(st.integers(-999, 999), st.integers(-999, 999)),
                                   st.tuples(st.integers(0, 0xFFFF), st.integers(0, 255)), st.integers(0, 30)), min_size=1, max_size=4))
    op = st.one_of(st.tuples(st.sampled_from(["rotate", "flip", "translate", "transform", "upscale"]), st.integers(-9, 40)),
                   st.tuples(st.sampled_from(["remap", "merge", "merge into new", "merge without", "reload", "redefine", "copy", "edges"]), st.integers(1, 400)))
    return cs, ents, draw(st.lists(op, min_size=1, max_size=5))


SUBS = [Sub("sessions", cases, session, 1500)]
