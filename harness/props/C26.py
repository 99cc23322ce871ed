import itertools

import dustmaker
from dustmaker import entity as E
from dustmaker.level import Level
from hypothesis import strategies as st

from ..engine import Sub, check, observing, raises, same
from .. import gen
from ..model import ENT_TABLE, ETYPE_CLASS, LEVEL_ACC, mkvar, unordered, vview

ID = "C26"
RULE = ("histories: an accessor is read after its variable was changed by another route (raw change, array edit, delete, "
        "clone) or an array default is edited; files: the entity class is registered; fog: arrays not yet of the right length")
ASSUMPTIONS = ["values are of the accessor's type or clearly of another type (bytes, None, lists); an empty array and an "
               "absent array variable are the same"]

LEVEL = dict(LEVEL_ACC)
for _p in range(1, 5):
    for _c in "xy":
        LEVEL["start%d.%s" % (_p, _c)] = {"var": "p%d_%s" % (_p, _c), "tag": "i", "default": 0}
CLASSES = [c for c in ENT_TABLE if ENT_TABLE[c]["accessors"]]


def accs(cls):
    return LEVEL if cls == "Level" else ENT_TABLE[cls]["accessors"]


def default(a):
    d = a["default"]
    return d["bytes"].encode("latin1") if isinstance(d, dict) else d


class Obj:
    def __init__(self, cls, kvs):
        self.cls = cls
        self.held = {}
        if cls == "Level":
            self.o = Level()
            self.m = {"dustmod_version": ("s", b"dustmaker")}
        else:
            self.o = getattr(E, cls)({k: mkvar(v) for k, v in kvs}) if kvs else getattr(E, cls)()
            self.m = dict(kvs)

    def target(self, name, hold):
        if not name.startswith("start"):
            return self.o, name
        p = int(name[5])
        if hold and p in self.held:
            return self.held[p], name[-1]
        pos = self.o.start_position() if p == 1 and hold else self.o.start_position(p)
        self.held[p] = pos
        return pos, name[-1]


def norm(cls, d):
    arrs = {a["var"]: a["arr"] for a in accs(cls).values() if "arr" in a}
    return {k: unordered(v) for k, v in d.items() if not (k in arrs and v == ("a", arrs[k], ()))}


def variables(ob):
    with observing("variables"):
        return {k: vview(v) for k, v in ob.o.variables.items()}


def history(case, t):
    specs, ops = case
    objs = [Obj(c, kvs) for c, kvs in specs]
    indirect = set()  # (object, variable) changed other than by its accessor since last read
    for n, op in enumerate(ops):
        kind, which = op[0], op[1]
        ob = objs[which]
        where = "step %d (%s on %s)" % (n, kind, ob.cls)
        if kind == "clone":
            if ob.cls == "Level":
                continue
            new = Obj(ob.cls, ())
            new.o = type(ob.o)(ob.o.variables)
            new.m = dict(ob.m)
            objs[op[2]] = new
            indirect = {(o, v) for o, v in indirect if o != op[2]} | {(op[2], v) for v in new.m}
        elif kind == "rawset":
            ob.o.variables[op[2]] = mkvar(op[3])
            ob.m[op[2]] = op[3]
            indirect.add((which, op[2]))
        elif kind == "rawdel":
            ob.o.variables.pop(op[2], None)
            ob.m.pop(op[2], None)
            indirect.add((which, op[2]))
        else:
            name = op[2]
            if name not in accs(ob.cls):
                continue  # the object was replaced by a clone of another class
            a = accs(ob.cls)[name]
            tgt, attr = ob.target(name, op[-1])
            cur = ob.m.get(a["var"])
            tag = "a" if "arr" in a else a["tag"]
            where += " ." + name
            wrong = cur is not None and cur[0] != tag
            if kind == "get":
                t.nontrivial((which, a["var"]) in indirect)
                indirect.discard((which, a["var"]))
                if wrong:
                    raises(Exception, where + " with a variable of another type", getattr, tgt, attr)
                    t.label("wrong type")
                elif tag == "a":
                    got = getattr(tgt, attr)
                    with observing(where):
                        check(list(got) == [x[1] for x in (cur or ("a", "", ()))[2]], "%s is %r, expected %r", where, list(got), cur)
                        check(len(got) == len(cur[2]) if cur else len(got) == 0, "%s has length %d", where, len(got))
                else:
                    want = cur[1] if cur else default(a)
                    got = getattr(tgt, attr)
                    check(type(got) is type(want) or isinstance(got, (int, float)) and type(want) in (int, float),
                          "%s is %r, expected %r", where, got, want)
                    check(got == want, "%s is %r, expected %r", where, got, want)
                    t.label("default" if cur is None else "value")
            elif kind == "set":
                if tag == "a":
                    setattr(tgt, attr, mkvar(("a", a["arr"], op[3])))
                    ob.m[a["var"]] = ("a", a["arr"], op[3])
                else:
                    setattr(tgt, attr, op[3][1])
                    ob.m[a["var"]] = op[3]
            elif kind == "badset":
                if tag != "a":
                    raises(Exception, where + " = " + repr(op[3]), setattr, tgt, attr, op[3])
                    t.label("bad value refused")
            elif kind == "del":
                delattr(tgt, attr)
                ob.m.pop(a["var"], None)
                indirect.add((which, a["var"]))
            elif kind == "arr" and tag == "a" and not wrong:
                t.nontrivial(cur is None)
                xs = list((cur or ("a", a["arr"], ()))[2])
                arr = getattr(tgt, attr)
                sub, i, v = op[3]
                if sub == "append":
                    arr.append(v[1])
                    xs.append(v)
                elif sub == "insert":
                    arr.insert(i, v[1])
                    xs.insert(i, v)
                elif xs and sub == "setitem":
                    arr[i % len(xs)] = v[1]
                    xs[i % len(xs)] = v
                elif xs and sub == "pop":
                    arr.pop()
                    xs.pop()
                ob.m[a["var"]] = ("a", a["arr"], tuple(xs))
                indirect.add((which, a["var"]))
        for k, o in enumerate(objs):
            same(norm(o.cls, variables(o)), norm(o.cls, o.m), "%s: variables of object %d (%s)" % (where, k, o.cls))


BAD = {"b": [None, b"x", 3.5, [1]], "i": [None, b"x", 1.5, "7"], "u": [None, b"x", 2.5, -1, 2**32], "f": [None, b"x", "1.0"],
       "s": [None, "text", 7, 1.5], "v": [None, 1.0, (1.0,), (1.0, 2.0, 3.0), b"xx", (b"a", 1.0)]}


@st.composite
def histories(draw):
    n = draw(st.integers(1, 3))
    classes = [draw(st.sampled_from(CLASSES + ["Level"] * 8)) for _ in range(n)]
    if n > 1 and draw(st.booleans()):
        classes[1] = classes[0]  # same class: shared defaults would show

    def value(a):
        if "arr" in a:
            return st.lists(gen.LEAF[a["arr"]], max_size=3).map(lambda xs: tuple(xs))
        return gen.LEAF[a["tag"]]

    def wrong(a):
        tag = "a" if "arr" in a else a["tag"]
        return st.sampled_from([x for x in "biufsv" if x != tag]).flatmap(lambda x: gen.LEAF[x])
    specs = []
    for c in classes:
        kvs = {}
        if c != "Level":
            for name in draw(st.lists(st.sampled_from(sorted(accs(c))), max_size=2, unique=True)):
                a = accs(c)[name]
                v = draw(value(a))
                kvs[a["var"]] = ("a", a["arr"], v) if "arr" in a else v
        specs.append((c, tuple(kvs.items())))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        which = draw(st.integers(0, n - 1))
        c = classes[which]
        name = draw(st.sampled_from(sorted(accs(c))))
        if ops and draw(st.booleans()):  # the same accessor again, on this object
            prev = ops[-1]
            which = prev[1]
            c = classes[which]
            if len(prev) > 2 and prev[2] in accs(c):
                name = prev[2]
            else:
                name = draw(st.sampled_from(sorted(accs(c))))
        a = accs(c)[name]
        kind = draw(st.sampled_from(["get", "get", "get", "set", "del", "raw", "rawwrong", "rawdel", "badset", "clone", "arr", "arr", "other"]))
        hold = draw(st.booleans())
        if kind == "arr" and "arr" not in a:
            kind = "get"
        if kind == "badset" and "arr" in a:
            kind = "arr"
        if kind == "get" or kind == "del":
            ops.append((kind, which, name, hold))
        elif kind == "set":
            ops.append(("set", which, name, draw(value(a)), hold))
        elif kind == "badset":
            ops.append(("badset", which, name, draw(st.sampled_from(BAD[a["tag"]])), hold))
        elif kind == "raw":
            v = draw(value(a))
            ops.append(("rawset", which, a["var"], ("a", a["arr"], v) if "arr" in a else v))
        elif kind == "rawwrong":
            ops.append(("rawset", which, a["var"], draw(wrong(a))))
        elif kind == "rawdel":
            ops.append(("rawdel", which, a["var"]))
        elif kind == "other":
            k = draw(gen.str6)
            if k not in {x["var"] for x in accs(c).values()}:
                ops.append(("rawset", which, k, draw(gen.leaf)))
        elif kind == "clone":
            dst = draw(st.integers(0, n - 1))
            if dst != which and c != "Level":
                ops.append(("clone", which, dst))
                classes[dst] = c
        else:
            ops.append(("arr", which, name, (draw(st.sampled_from(["append", "append", "insert", "setitem", "pop"])),
                                             draw(st.integers(-3, 4)), draw(gen.LEAF[a["arr"]])), hold))
        if draw(st.booleans()):
            ops.append(("get", which, name, draw(st.booleans())))
    return specs, ops


# ---- every accessor at its default, on fresh objects and files ----------------------------------

_N = itertools.count()


def registry(case, t):
    kind, base, name, at = case
    if kind == "known":
        cls = getattr(E, base)
        etype = ENT_TABLE[base]["etype"]
    elif kind == "unknown":
        cls, etype = E.Entity, name
        if name in ETYPE_CLASS:
            return
    else:
        etype = "%sq%d" % (name[:50], next(_N))
        if at[0] % 2:  # met in a file before the class exists
            lv = Level()
            plain = E.Entity()
            plain.etype = etype
            i = lv.add_entity(0.0, 0.0, plain)
            early = dustmaker.read_level(dustmaker.write_level(lv)).entities[i][2]
            check(type(early) is E.Entity and early.etype == etype, "entity of unknown type %r read as %s %r", etype, type(early).__name__, early.etype)
        cls = type("Custom", (getattr(E, base),), {"TYPE_IDENTIFIER": etype})
    ent = cls()
    if kind == "unknown":
        check(ent.etype == "unknown_type", "type name of a plain entity is %r", ent.etype)
        ent.etype = etype
    with observing("default entity"):
        check(ent.etype == ("unknown_type" if etype is None else etype), "type name of a new %s is %r", cls.__name__, ent.etype)
        same((ent.variables, ent.rotation, ent.layer, ent.flip_x, ent.flip_y, ent.visible), ({}, 0, 18, False, False, True),
             "attributes of a new " + cls.__name__)
    for nm, a in sorted(ENT_TABLE[base if kind != "unknown" else "Entity"]["accessors"].items()):
        got = getattr(ent, nm)
        if "arr" in a:
            check(len(got) == 0 and got.element_type is type(mkvar((a["arr"], {"b": False, "f": 0.0, "s": b"", "v": (0.0, 0.0)}.get(a["arr"], 0)))),
                  "default of %s.%s is %r", base, nm, got)
        else:
            check(got == default(a), "default of %s.%s is %r, expected %r", base, nm, got, default(a))
    if etype is None:
        return
    if kind != "unknown":
        ent = cls()
    lv = Level()
    i = lv.add_entity(float(at[0]), float(at[1]), ent)
    lv.add_entity(0.0, 0.0, E.Entity())
    back = dustmaker.read_level(dustmaker.write_level(lv))
    with observing("level read back"):
        x, y, e2 = back.entities[i]
        check(e2.etype == etype, "type name %r read back as %r", etype, e2.etype)
        check(type(e2) is cls, "entity of type %r read back with class %s, expected %s", etype, type(e2).__name__, cls.__name__)
        check((x, y) == (at[0], at[1]), "position %r", (x, y))
        if kind != "unknown":  # the documented family, which users select by
            for b in ENT_TABLE[base]["bases"]:
                check(isinstance(e2, getattr(E, b)), "an entity of type %r is no %s", etype, b)
    t.nontrivial(kind != "unknown")
    t.label(kind)


registry_cases = st.tuples(st.sampled_from(["known", "known", "unknown", "custom"]), st.sampled_from(sorted(ENT_TABLE)), st.one_of(gen.etypes, gen.near_names),
                           st.tuples(st.integers(-3000, 3000), st.integers(-3000, 3000)))


# ---- fog triggers -----------------------------------------------------------------------------------


def fog(case, t):
    if case[0] == "index":
        _, layer, sub, pos = case
        F = E.FogTrigger
        call = (lambda: F.get_layer_index(layer)) if sub is None and pos else \
            (lambda: F.get_layer_index(layer, sub)) if pos else (lambda: F.get_layer_index(layer=layer, sublayer=sub))
        if 0 <= layer <= 20 and (sub is None or 0 <= sub <= 24):
            got = call()
            want = layer if sub is None else (sub + 1) * 21 + layer
            check(got == want, "fog index of layer %d, sublayer %r is %r, expected %d", layer, sub, got, want)
            t.nontrivial(sub is not None)
        else:
            raises(Exception, "fog index of layer %d, sublayer %r" % (layer, sub), call)
        return
    _, subs, nc, np_, grad, extra = case
    ent = E.FogTrigger()
    other = E.FogTrigger()
    if subs is not None:
        ent.has_sub_layers = subs
    cols = [(i * 7919 + 13) & 0xFFFFFF for i in range(nc)]
    pers = [(i % 64) / 64 for i in range(np_)]
    if nc:
        ent.colours.extend(cols)
    if np_:
        ent.pers.extend(pers)
    if grad:
        ent.gradient.extend(grad)
    for k, v in extra:
        ent.variables[k] = mkvar(v)
    n = 546 if subs else 21
    t.nontrivial(nc != n or np_ != n or len(grad) != 3)
    for again in range(2):
        r = ent.normalize()
        check(r is None, "normalize returned %r", r)
        with observing("fog arrays"):
            same(list(ent.colours), (cols + [0x111118] * n)[:n], "colours")
            same(list(ent.pers), (pers + [0.0] * n)[:n], "pers")
            same(list(ent.gradient), (list(grad) + [0, 0, 0])[:3], "gradient")
            want = {"fog_colour", "fog_per", "gradient"} | {k for k, _ in extra} | ({"has_sub_layers"} if subs is not None else set())
            check(set(ent.variables) == want, "variables after normalize: %r", sorted(ent.variables))
            for k, v in extra:
                same(vview(ent.variables[k]), v, "variable " + k)
            check(bool(ent.has_sub_layers) == bool(subs), "has_sub_layers changed to %r", ent.has_sub_layers)
    same(norm("FogTrigger", {k: vview(v) for k, v in other.variables.items()}), {}, "variables of another fog trigger")


fog_len = st.one_of(st.sampled_from([0, 1, 20, 21, 22, 545, 546, 547]), st.integers(0, 600))
_fogvars = {"fog_colour", "fog_per", "gradient", "has_sub_layers"}
fog_cases = st.one_of(
    st.tuples(st.just("index"), st.one_of(st.integers(-3, 25), st.integers(0, 20)),
              st.one_of(st.none(), st.integers(-3, 30), st.integers(0, 24)), st.booleans()),
    st.tuples(st.just("normalize"), st.sampled_from([None, False, True]), fog_len, fog_len,
              st.lists(gen.u32, max_size=5).map(tuple),
              st.lists(st.tuples(gen.str6.filter(lambda k: k not in _fogvars), gen.leaf), max_size=1).map(tuple)),
)

SUBS = [
    Sub("histories", histories, history, 9000),
    Sub("registry", lambda: registry_cases, registry, 5000),
    Sub("fog", lambda: fog_cases, fog, 2500),
]
