import copy
import io

import dustmaker
from dustmaker import entity as E
from dustmaker import variable as V
from dustmaker.level import Level
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileShape
from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, observing, same
from .. import gen
from ..replays import mkreplay, replays
from ..model import (ENT_TABLE, VCLS, entview, has_filth, levelview, mkent, mkprop, mktile, mkvar, quant, strip_filth, tileview,
                     unordered, vview)

ID = "C33"
RULE = "an object of a kind is changed in place while another of that kind exists or is made afterwards"
ASSUMPTIONS = ["changes go through the public attributes; variables passed to a new VariableStruct or VariableArray may be shared, "
               "the containers may not"]

ARRS = [(c, n, a) for c in sorted(ENT_TABLE) for n, a in sorted(ENT_TABLE[c]["accessors"].items()) if "arr" in a]
CLASSES = sorted(c for c in ENT_TABLE if ENT_TABLE[c]["etype"]) + ["Entity"]


class K:
    """A live object with the state it must have."""

    def __init__(self, kind, obj, state):
        self.kind, self.obj, self.state = kind, obj, state
        self.changed = False

    def verify(self, where):
        o = self.obj
        with observing(self.kind):
            if self.kind == "level":
                same(levelview(o), self.state, where)
                check(o.parent is None and o.backdrop.parent is o and o.backdrop.backdrop is None, "%s: parent links", where)
            elif self.kind == "entity":
                got = entview(o)
                same((got[0], unordered(got[1])) + got[2:], (self.state[0], unordered(("d", tuple(self.state[1].items())))) + self.state[2:], where)
            elif self.kind == "replay":
                same((o.version, o.username, o.level, o.frames, [pview(p) for p in o.players],
                      {u: [fview(f) for f in d.frames] for u, d in o.entities.items()}), tuple(self.state), where)
            elif self.kind == "struct":
                same(unordered(vview(o)), unordered(("d", tuple(self.state.items()))), where)
            elif self.kind == "array":
                same(unordered(vview(o)), unordered(("a", self.state[0], tuple(self.state[1]))), where)
            elif self.kind == "tile":
                same(tileview(o), self.state, where)


def pview(p):
    return (int(p.character), {int(s): list(v) for s, v in p.intents.items() if v})


def fview(f):
    return (f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed)


def fresh(kind, arg):
    if kind == "level":
        return K(kind, Level(), {"tiles": {}, "props": {}, "ents": {}, "btiles": {}, "bprops": {}, "bents": 0,
                                 "sshot": b"", "vars": ("d", (("dustmod_version", ("s", b"dustmaker")),))})
    if kind == "entity":
        c = CLASSES[arg % len(CLASSES)]
        return K(kind, getattr(E, c)(), (ENT_TABLE[c]["etype"] if c in ENT_TABLE and ENT_TABLE[c]["etype"] else "unknown_type",
                                         {}, 0, 18, False, False, True))
    if kind == "replay":
        return K(kind, Replay(), [4, b"", b"", 0, [], {}])
    if kind == "struct":
        return K(kind, V.VariableStruct(), {})
    if kind == "array":
        t = "biufsvda"[arg % 8]
        return K(kind, V.VariableArray(VCLS[t]), (t, []))
    if arg[3] % 3 == 0:
        return K(kind, Tile(TileShape(arg[0])), (arg[0], 4, 5, 1, 0, ((False, False, (False, False), (0, 0), 0, False, (False, False), (0, 0)),) * 4))
    return K(kind, mktile(arg), arg)


def change(k, how, val):
    """Changes the object in place, and what it is expected to hold."""
    o, s = k.obj, k.state
    tl, pr, en, (key, v), n = val
    if k.kind == "level":
        if how == 0:
            l = n % 21
            tl = tl if l == 19 and has_filth(tl) else strip_filth(tl)
            o.tiles[(l, n, -n)] = mktile(tl)
            s["tiles"][(l, n, -n)] = tl
        elif how == 1:
            i = 1000 + n
            o.props[i] = (n % 21, float(n), 3.0, mkprop(pr))
            s["props"][i] = (n % 21, float(n), 3.0, pr)
        elif how == 2:
            i = 5000 + n
            o.entities[i] = (float(n), 2.0, mkent(en))
            s["ents"][i] = (float(n), 2.0, en)
        elif how == 3:
            o.variables[key] = mkvar(v)
            d = dict(s["vars"][1])
            d[key] = v
            s["vars"] = ("d", tuple(d.items()))
        elif how == 4:
            o.sshot = bytes([n & 255]) * 3
            s["sshot"] = bytes([n & 255]) * 3
        elif how == 5:
            tl = strip_filth(tl)
            o.backdrop.tiles[(n % 19, n, n)] = mktile(tl)
            s["btiles"][(n % 19, n, n)] = tl
        elif s["ents"]:
            i = sorted(s["ents"])[n % len(s["ents"])]
            x, y, e = s["ents"][i]
            o.entities[i][2].variables[key] = mkvar(v)
            d = dict(e[1][1])
            d[key] = v
            s["ents"][i] = (x, y, (e[0], ("d", tuple(d.items()))) + e[2:])
    elif k.kind == "entity":
        if how < 2:
            o.variables[key] = mkvar(v)
            s[1][key] = v
        elif how == 2:
            o.rotation, o.layer, o.visible = n & 0xFFFF, n % 21, False
            k.state = s[:2] + (n & 0xFFFF, n % 21) + s[4:6] + (False,)
        elif how < 5:
            arrs = [(nm, a) for c, nm, a in ARRS if c == type(o).__name__]
            if arrs:
                nm, a = arrs[n % len(arrs)]
                cur = s[1].get(a["var"])
                if cur is None or cur[:2] == ("a", a["arr"]):
                    x = ("i", n) if a["arr"] == "i" else ("u", n) if a["arr"] == "u" else {
                        "v": ("v", (float(n), 1.0)), "f": ("f", float(n)), "s": ("s", b"x"), "b": ("b", True)}[a["arr"]]
                    getattr(o, nm).append(x[1])
                    s[1][a["var"]] = ("a", a["arr"], (cur[2] if cur else ()) + (x,))
        else:
            for kk, vv in sorted(s[1].items()):  # change a nested container in place
                if vv[0] == "d":
                    o.variables[kk].value[key] = mkvar(v)
                    d = dict(vv[1])
                    d[key] = v
                    s[1][kk] = ("d", tuple(d.items()))
                    break
                if vv[0] == "a" and vv[1] == "i":
                    o.variables[kk].append(n)
                    s[1][kk] = vv[:2] + (vv[2] + (("i", n),),)
                    break
    elif k.kind == "replay":
        if how == 0:
            o.players.append(PlayerData())
            s[4].append((0, {}))
        elif how == 1:
            u = 2 + n % 7
            o.entities[u] = EntityData()
            s[5][u] = []
        elif how in (2, 3) and s[4]:
            i = n % len(s[4])
            o.players[i].intents.setdefault(IntentStream(n % 8), []).append(n % 2)
            s[4][i][1].setdefault(n % 8, []).append(n % 2)
        elif how in (4, 5) and s[5]:
            u = sorted(s[5])[n % len(s[5])]
            f = EntityFrame()
            same(fview(f), (0, 0.0, 0.0, 0.0, 0.0), "new entity frame")
            f.frame, f.x_pos = n & 0xFFFF, 1.5
            o.entities[u].frames.append(f)
            s[5][u].append((n & 0xFFFF, 1.5, 0.0, 0.0, 0.0))
        else:
            o.username, o.frames, o.version = b"u%d" % n, n & 0xFFFF, 3
            s[:4] = [3, b"u%d" % n, s[2], n & 0xFFFF]
            if s[4]:
                o.players[0].character = Character(n % 8)
                s[4][0] = (n % 8, s[4][0][1])
    elif k.kind == "struct":
        if how < 4 or not s:
            o.value[key] = mkvar(v)
            s[key] = v
        else:
            del o.value[sorted(s)[0]]
            del s[sorted(s)[0]]
    elif k.kind == "array":
        t = s[0]
        x = {"b": ("b", bool(n & 1)), "i": ("i", n), "u": ("u", abs(n)), "f": ("f", n / 2), "s": ("s", b"%d" % n),
             "v": ("v", (n / 2, 1.0)), "d": ("d", ((key, v),)), "a": ("a", "i", (("i", n),))}[t]
        if how < 5 or not s[1]:
            o.append({key: mkvar(v)} if t == "d" else (V.VariableInt, [V.VariableInt(n)]) if t == "a" else x[1])
            s[1].append(x)
        else:
            o.pop(0)
            s[1].pop(0)
    else:
        if how == 5 and n % 3 == 0 and s[0] == 0:  # other helpers replace or rebuild edges
            o.transform(TxMatrix.ROTATE[n % 4])
            for _ in range(-(n % 4) % 4):
                o.transform(TxMatrix.ROTATE[1])
            return
        side = n % 4
        o.edge_data[side].solid = not o.edge_data[side].solid
        o.edge_data[side].angles = (n % 100, how)
        e = list(s[5])
        e[side] = (not e[side][0],) + e[side][1:3] + ((n % 100, how),) + e[side][4:]
        k.state = s[:5] + (tuple(e),)
    k.changed = True


def history(case, t):
    kinds, steps = case
    live = []
    hit = False
    for n, (op, a, b, how, val) in enumerate(steps):
        kind = kinds[a % len(kinds)]
        same_kind = [k for k in live if k.kind == kind]
        where = "step %d (%s %s)" % (n, op, kind)
        if op == "new" or not same_kind:
            hit |= any(k.changed for k in same_kind)
            live.append(fresh(kind, val[0] if kind == "tile" else b))
        elif op == "change":
            k = same_kind[b % len(same_kind)]
            change(k, how, val)
            hit |= len(same_kind) > 1
        elif op == "read" and kind == "level":
            # two levels read from the same bytes
            k = same_kind[b % len(same_kind)]
            data = dustmaker.write_level(k.obj)
            for _ in range(2):
                lv = dustmaker.read_level(data)
                live.append(K("level", lv, copy.deepcopy(k.state)))
        elif op in ("given", "read"):
            # two objects made from the same container
            key, v = val[3]
            src = {key: mkvar(v), "st": V.VariableStruct({"q": V.VariableInt(1)}), "ar": V.VariableArray(V.VariableInt, [V.VariableInt(3)])}
            extra = [0, 0, 3, 12, 70][how % 5]
            src.update(("n%d" % i, V.VariableInt(i)) for i in range(extra))
            spec = {key: v, "st": ("d", (("q", ("i", 1)),)), "ar": ("a", "i", (("i", 3),))}
            spec.update(("n%d" % i, ("i", i)) for i in range(extra))
            if kind == "entity":
                c = CLASSES[b % len(CLASSES)]
                for _ in range(2):
                    et = ENT_TABLE[c]["etype"] if c in ENT_TABLE and ENT_TABLE[c]["etype"] else "unknown_type"
                    live.append(K(kind, getattr(E, c)(src), (et, dict(spec), 0, 18, False, False, True)))
                src["st"].value["q"] = V.VariableInt(2)
                src["ar"].append(5)
            elif kind == "struct":
                for _ in range(2):
                    live.append(K(kind, V.VariableStruct(src), dict(spec)))
            elif kind == "array":
                items = [V.VariableInt(7), V.VariableInt(8)] + [V.VariableInt(i) for i in range(extra)]
                for _ in range(2):
                    live.append(K(kind, V.VariableArray(V.VariableInt, items), ("i", [("i", 7), ("i", 8)] + [("i", i) for i in range(extra)])))
                items.append(V.VariableBool(True))
            src["other"] = V.VariableBool(True)
            src.pop("st")
        for i, k in enumerate(live):
            k.verify("%s: object %d" % (where, i))
    t.nontrivial(hit)
    for k in set(kinds):
        t.label(k)


# ---- the parts of one object ---------------------------------------------------------------------


def parts_of(v, path):
    """Every place of a variable that can be changed in place."""
    if isinstance(v, V.VariableStruct):
        for k, x in v.value.items():
            yield from parts_of(x, path + (k,))
    elif isinstance(v, V.VariableArray):
        for i, x in enumerate(v.value[1]):
            yield from parts_of(x, path + (i,))
    else:
        yield path, v, "value"


EDGE_ATTRS = ("solid", "visible", "caps", "angles", "filth_sprite_set", "filth_spike", "filth_caps", "filth_angles")
TILE_ATTRS = ("shape", "tile_flags", "sprite_set", "sprite_tile", "sprite_palette")
PROP_ATTRS = ("layer_sub", "rotation", "flip_x", "flip_y", "scale", "prop_set", "prop_group", "prop_index", "palette")
ENT_ATTRS = ("rotation", "layer", "flip_x", "flip_y", "visible")


def tile_parts(tile, path):
    for a in TILE_ATTRS:
        yield path + (a,), tile, a
    for i, e in enumerate(tile.edge_data):
        for a in EDGE_ATTRS:
            yield path + (i, a), e, a


def level_parts(lv, name="level"):
    for where, l in ((name, lv), (name + " backdrop", lv.backdrop)):
        for k, tile in l.tiles.items():
            yield from tile_parts(tile, (where, "tile") + k)
        for k, p in l.props.items():
            for a in PROP_ATTRS:
                yield (where, "prop", k, a), p[3], a
        for k, e in l.entities.items():
            for a in ENT_ATTRS:
                yield (where, "entity", k, a), e[2], a
            for kk, v in e[2].variables.items():
                yield from parts_of(v, (where, "entity", k, "variables", kk))
    for kk, v in lv.variables.items():
        yield from parts_of(v, (name, "variables", kk))


def other(val):
    """Another value of the same type."""
    if isinstance(val, bool):
        return not val
    if isinstance(val, (bytes, float)):
        return val + (b"!" if isinstance(val, bytes) else 1.5)
    if isinstance(val, tuple):
        return tuple(other(x) for x in val)
    if type(val) is not int and isinstance(val, int):
        return type(val)(int(val) + 1 if int(val) == 0 else int(val) - 1)
    return val + 1


def alone(parts, picks):
    """Changes parts one after another: exactly that part changes."""
    n = sum(1 for _ in parts())
    state = {p: getattr(o, a) for p, o, a in parts()}
    check(len(state) == n, "a place is listed twice")
    # parts that look the same as another one are the likely ones to be shared
    order = sorted(state, key=repr)
    done = 0
    for k in picks:
        if not order:
            break
        path = order[k % len(order)]
        _, o, a = next(x for x in parts() if x[0] == path)
        val = other(getattr(o, a))
        setattr(o, a, val)
        state[path] = val
        now = {p: getattr(o, a) for p, o, a in parts()}
        if now != state:
            same(sorted(now, key=repr), order, "the places after changing %r" % (path,))
            for p in order:
                check(now[p] == state[p], "changing %r also changed %r from %r to %r", path, p, state[p], now[p])
        done += 1
    return done


PASSES = ["made", "read", "regions", "turned", "turned", "upscaled", "merged", "remapped", "edges", "copied", "read twice"]


def parts(case, t):
    tls, where, prs, vs, passes, picks = case
    lv = Level()
    for i, (l, x, y) in enumerate(where):
        lv.tiles[(l, x, y)] = mktile(tls[i % len(tls)])
        lv.backdrop.tiles[(l, x // 4, y // 4)] = mktile(strip_filth(tls[i % len(tls)]))
    for i, (k, e) in enumerate(prs):
        lv.add_prop(5 + i % 3, 10.0 * i, 4.0, mkprop(k))
        lv.add_prop(5, 10.0, 4.0 * i, mkprop(k))
        lv.backdrop.add_prop(5, 10.0, 4.0, mkprop(k))
        for j in range(2):
            lv.add_entity(20.0 * i, 3.0 * j, mkent((e[0], ("d", tuple(vs) + tuple(kv for kv in e[1][1] if kv[0] not in dict(vs)))) + e[2:]))
    lv.variables.update((k + "_%d" % n, mkvar(v)) for n in range(2) for k, v in vs)
    lvs = [lv]
    for ps in sorted(passes, key=lambda p: "read" not in p and p != "regions"):  # turned content may not fit the format
        t.label(ps)
        lv = lvs[0]
        if ps in ("read", "read twice"):
            data = dustmaker.write_level(lv)
            lvs = [dustmaker.read_level(data) for _ in range(1 + (ps == "read twice"))]
        elif ps == "regions":
            r = dustmaker.DFReader(io.BytesIO(dustmaker.write_level(lv)))
            new, offs = r.read_level_ex()
            for _ in offs[:-1]:
                r.read_region(new)
            lvs = [new]
        elif ps == "turned":
            lv.transform(([TxMatrix.ROTATE[k] for k in range(4)] + [TxMatrix.HFLIP, TxMatrix.VFLIP])[picks[0] % 6])
        elif ps == "upscaled":
            if len(lv.tiles) < 60:
                lv.upscale(2 + picks[0] % 2)
        elif ps == "merged":
            new = Level()
            new.merge(lv)
            lvs = [new, lv]
        elif ps == "remapped":
            lv.remap_ids(picks[0] % 500)
        elif ps == "edges":
            lv.calculate_edge_visibility()
            lv.calculate_edge_caps()
        elif ps == "copied":
            lvs = [copy.deepcopy(lv), lv]
    with observing("parts of a level"):
        done = alone(lambda: (x for i, l in enumerate(lvs) for x in level_parts(l, "level %d" % i)), picks)
    t.nontrivial(done and (len(where) > 1 or len(prs) > 1))


def record_parts(case, t):
    """The same for what is read from replays and variable files, and for tiles taken alone."""
    kind, spec, vs, tl, picks = case
    if kind == "replay":
        rep = mkreplay(spec)
        buf = io.BytesIO()
        dustmaker.DFWriter(buf, noclose=True).write_replay(rep)
        reps = [dustmaker.DFReader(io.BytesIO(buf.getvalue())).read_replay() for _ in range(2)]
        if picks[0] % 2:
            reps[0] = rep

        def replay_parts():
            for i, r in enumerate(reps):
                for a in ("username", "level", "frames", "version"):
                    yield (i, a), r, a
                for j, p in enumerate(r.players):
                    yield (i, "player", j, "character"), p, "character"
                    for s in p.intents:
                        yield (i, "player", j, int(s)), Items(p.intents[s]), "items"
                for u, e in r.entities.items():
                    for j, f in enumerate(e.frames[:8]):
                        for a in ("frame", "x_pos", "y_pos", "x_speed", "y_speed"):
                            yield (i, "entity", u, j, a), f, a
        parts = replay_parts
    elif kind == "vars":
        struct = {k + "_%d" % n: mkvar(v) for n in range(2) for k, v in vs}
        buf = io.BytesIO()
        with dustmaker.DFWriter(buf, noclose=True) as w:
            w.write_var_file(b"DF_STA", struct)
        data = buf.getvalue()
        both = []
        for _ in range(2):
            with dustmaker.DFReader(io.BytesIO(data)) as r:
                both.append(r.read_var_file(b"DF_STA"))
        parts = lambda: (x for i, d in enumerate(both) for k, v in d.items() for x in parts_of(v, (i, k)))
    else:
        tile = mktile(tl)
        many = [((), tile)]
        for k in picks[:3]:
            tile.transform(([TxMatrix.ROTATE[k] for k in range(4)] + [TxMatrix.HFLIP, TxMatrix.VFLIP])[k % 6])
        if picks[0] % 3 == 0:
            many += [((x, y), o) for x, y, o in tile.upscale(2 + picks[1] % 2)]
        parts = lambda: (x for k, o in many for x in tile_parts(o, (k,)))
    with observing("parts of a %s" % kind):
        t.nontrivial(alone(parts, picks))
    t.label(kind)


class Items:
    """A list as an attribute."""

    def __init__(self, lst):
        self.lst = lst

    @property
    def items(self):
        return tuple(self.lst)

    @items.setter
    def items(self, val):
        self.lst[:] = val


key = st.sampled_from(["a", "b", "key", "zz"])
small = st.one_of(gen.LEAF["i"], gen.LEAF["b"], gen.LEAF["s"], st.just(("d", (("q", ("i", 4)),))), st.just(("a", "i", (("i", 9),))))
val = st.tuples(gen.tile, gen.prop, gen.typed_ent.map(lambda e: (e[0], quant(e[1])) + e[2:]), st.tuples(key, small), st.integers(0, 300))
step = st.tuples(st.sampled_from(["new", "new", "change", "change", "change", "change", "given", "read"]), st.integers(0, 3), st.integers(0, 60),
                 st.integers(0, 6), val)
picks = st.lists(st.integers(0, 5000), min_size=2, max_size=8)
spot = st.tuples(st.sampled_from([19, 19, 18, 5, 12]), st.one_of(st.integers(-3, 3), st.integers(-20, 20)), st.one_of(st.integers(-3, 3), st.integers(-20, 20)))
shared_vars = st.lists(st.tuples(key, gen.var(2).map(quant)), max_size=3, unique_by=lambda kv: kv[0])
KINDS = ["level", "entity", "replay", "struct", "array", "tile"]
SUBS = [Sub("histories", lambda: st.tuples(st.one_of(st.sampled_from(KINDS).map(lambda k: [k]), st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)),
                                           st.lists(step, min_size=2, max_size=10)), history, 6000),
        Sub("parts", lambda: st.tuples(
            st.lists(gen.tile, min_size=1, max_size=2), st.lists(spot, min_size=2, max_size=9, unique=True),
            st.lists(st.tuples(gen.prop, gen.typed_ent.map(lambda e: (e[0], quant(e[1])) + e[2:])), max_size=2), shared_vars,
            st.lists(st.sampled_from(PASSES), min_size=1, max_size=3), picks), parts, 1500),
        Sub("records", lambda: st.tuples(st.sampled_from(["replay", "vars", "tile", "tile"]), replays(), shared_vars, gen.tile, picks), record_parts, 1500)]
