from dustmaker import variable as V
from dustmaker.tile import TileShape, TileSpriteSet
from dustmaker.transform import TxMatrix
from hypothesis import strategies as st

from ..engine import Sub, check, same
from .. import gen
from ..model import levelview, mklevel, specview
from .C20 import REFS

ID = "C21"
RULE = "both levels have content and (for the edits) an edit touches merged content"
ASSUMPTIONS = ["ids below 2**30, so that renumbered ids stay within the format's range", "references to entities are checked by C20 and ignored here"]
KINDS = ("tiles", "btiles", "props", "bprops", "ents")


def norefs(e):
    """Entity view without the reference variables of its class."""
    ref = REFS.get(e[0])
    if not ref:
        return e
    return (e[0], ("d", tuple((k, v) for k, v in e[1][1] if k != ref[0]))) + tuple(e[2:])


def bag(view, kind):
    if kind == "ents":
        return sorted(repr((x, y, norefs(e))) for x, y, e in view.values())
    return sorted(map(repr, view.values()))


def check_merged(got, va, vb, remapped):
    for k in ("tiles", "btiles"):
        same(got[k], {**va[k], **vb[k]}, k + " after merge")
    if remapped:
        for k in ("props", "bprops", "ents"):
            own = {}
            for i, v in got[k].items():
                if i in vb[k]:
                    same(v, vb[k][i], "merged %s %d" % (k, i))
                else:
                    own[i] = v
            check(set(vb[k]) <= set(got[k]), "merged %s missing: %r", k, set(vb[k]) - set(got[k]))
            same(bag(own, k), bag(va[k], k), "own %s after merge" % k)
    else:
        for k in ("props", "bprops", "ents"):
            same(got[k], {**va[k], **vb[k]}, k + " after merge without renumbering")
    same(got["vars"], va["vars"], "level variables after merge")
    same(got["sshot"], va["sshot"], "thumbnail after merge")
    check(got["bents"] == 0, "backdrop entities appeared")


def edit(lv, e):
    """Applies one edit; returns whether anything was there to edit."""
    op, n = e
    if op in ("translate", "rotate", "flip", "upscale", "remap", "edges", "rvars"):
        if op == "translate":
            lv.translate(48 * (n % 7 + 1), -96)
        elif op == "rotate":
            lv.rotate(1 + n % 3)
        elif op == "flip":
            lv.transform(TxMatrix.HFLIP)
        elif op == "upscale":
            lv.upscale(2)
        elif op == "remap":
            lv.remap_ids(500 + n)
        elif op == "edges":
            lv.calculate_edge_visibility()
            lv.calculate_edge_caps()
        else:
            lv.variables["edited"] = V.VariableInt(n)
        return True
    bd = op.startswith("b")
    src = lv.backdrop if bd else lv
    op = op[1:] if bd else op
    if op.startswith("tile"):
        if not src.tiles:
            return False
        keys = sorted(src.tiles)
        k = keys[n % len(keys)]
        tl = src.tiles[k]
        if op == "tile-edge":
            ed = tl.edge_data[n % 4]
            ed.solid = not ed.solid
            ed.angles = (ed.angles[0] ^ 1, ed.angles[1])
            ed.filth_sprite_set = TileSpriteSet((ed.filth_sprite_set + 1) % 8)
        elif op == "tile-shape":
            tl.shape = TileShape((tl.shape + 1 + n % 20) % 21)
        elif op == "tile-sprite":
            if n % 3:
                tl.sprite_tile = tl.sprite_tile ^ 1
            if n % 3 != 1:
                tl.sprite_palette = n % 2 if n % 5 == 0 else tl.sprite_palette ^ 1
        elif op == "tile-block":
            if n % 3 or tl.sprite_set not in (1, 2, 3, 4, 5):
                tl.set_sprite_tuple((TileSpriteSet(1 + n % 5), tl.sprite_tile, tl.sprite_palette))
            tl.set_dustblock()
        elif op == "tile-turn":
            tl.transform(TxMatrix.ROTATE[1])
        else:
            del src.tiles[k]
        return True
    if op.startswith("prop"):
        if not src.props:
            return False
        keys = sorted(src.props)
        k = keys[n % len(keys)]
        p = src.props[k][3]
        if op == "prop-set":
            p.rotation ^= 0x4000
            p.palette ^= 1
            p.layer_sub ^= 1
        elif op == "prop-turn":
            p.transform(TxMatrix.ROTATE[1])
        else:
            del src.props[k]
        return True
    if not src.entities:
        return False
    keys = sorted(src.entities)
    k = keys[n % len(keys)]
    e = src.entities[k][2]
    if op == "ent-attr":
        e.rotation ^= 0x8000
        e.visible = not e.visible
        e.layer ^= 1
    elif op == "ent-var":
        e.variables["edited"] = V.VariableInt(n)
    elif op == "ent-deep":
        done = False
        for name in sorted(e.variables):
            done = _deep(e.variables[name], n) or done
        return done
    elif op == "ent-delvar":
        if not e.variables:
            return False
        del e.variables[sorted(e.variables)[n % len(e.variables)]]
    else:
        del src.entities[k]
    return True


def _deep(var, n):
    """Changes a variable in place."""
    if isinstance(var, V.VariableStruct):
        var.value["edited"] = V.VariableBool(True)
        return True
    if isinstance(var, V.VariableArray):
        if len(var):
            sub = var.value[1][n % len(var)]
            if isinstance(sub, (V.VariableArray, V.VariableStruct)):
                return _deep(sub, n)
            del var[n % len(var)]
            return True
        return False
    if isinstance(var, V.VariableString):
        var.value = var.value + b"!"
        return True
    if isinstance(var, (V.VariableInt, V.VariableUInt)):
        var.value = var.value ^ 1
        return True
    return False


def merge(case, t):
    sa, sb, remap, edits = case
    a, b = mklevel(sa), mklevel(sb)
    va, vb = levelview(a), levelview(b)
    same(va, specview(sa), "level before merge")
    if remap is None:
        a.merge(b)
    else:
        a.merge(b, remap_ids=remap) if edits else a.merge(b, remap)
    got = levelview(a)
    same(levelview(b), vb, "the other level after merge")
    check_merged(got, va, vb, remap is not False)
    done = 0
    for n, (which, e) in enumerate(edits):
        x, y = (a, b) if which else (b, a)
        before = levelview(y)
        bx = levelview(x)
        if edit(x, e):
            done += 1
        same(levelview(y), before, "%s after edit %r of %s" % (("the other level", "this level")[not which], e, ("the other level", "this level")[which]))
        if e[0].startswith(("tile-", "prop-", "ent-", "btile-", "bprop-")):
            ax = levelview(x)
            changed = sum(1 for k in KINDS for i in set(bx[k]) | set(ax[k]) if bx[k].get(i) != ax[k].get(i))
            check(changed <= 1, "edit %r of one object changed %d objects of the level", e, changed)
    ca = any(sa[k] for k in ("tiles", "btiles", "props", "bprops", "ents"))
    cb = any(sb[k] for k in ("tiles", "btiles", "props", "bprops", "ents"))
    t.nontrivial(ca and cb and (done or not edits))
    t.label("remap %r" % remap)
    for k in ("tiles", "btiles"):
        if set(va[k]) & set(vb[k]):
            t.label("overlapping " + k)
    for k in ("props", "bprops", "ents"):
        if set(va[k]) & set(vb[k]):
            t.label("same ids in " + k)


EDITS = ["translate", "rotate", "flip", "upscale", "remap", "edges", "rvars", "tile-edge", "tile-shape", "tile-sprite", "tile-block", "tile-turn",
         "tile-del", "btile-edge", "btile-shape", "btile-sprite", "btile-block", "btile-turn", "btile-del", "prop-set", "prop-turn", "prop-del",
         "bprop-set", "bprop-turn", "bprop-del", "ent-attr", "ent-var", "ent-deep", "ent-delvar", "ent-del", "ent-deep", "tile-edge"]
edits = st.lists(st.tuples(st.booleans(), st.tuples(st.sampled_from(EDITS), st.integers(0, 99))), max_size=5).map(
    # sizes of entities keep fitting their variables
    lambda es: [(w, ("flip", n) if op == "upscale" and sum(o == "upscale" for _, (o, _) in es[:i]) >= 3 else (op, n)) for i, (w, (op, n)) in enumerate(es)])


@st.composite
def pairs(draw):
    a = draw(gen.levels(typed_ents=True, near=True, max_tiles=6, max_props=3, max_ents=3, var_depth=1, few=True))
    b = draw(gen.levels(typed_ents=True, near=True, max_tiles=6, max_props=3, max_ents=3, var_depth=1, few=True))
    for s in (a, b):
        for k in ("props", "bprops", "ents"):  # leave room for renumbering
            s[k] = [o for o in s[k] if o[0] < 2**30]
    if draw(st.booleans()):  # make positions and ids meet
        for k in ("tiles", "btiles"):
            have = {x[:3] for x in b[k]}
            for tl in a[k][:2]:
                if tl[:3] not in have:
                    b[k].append(tl[:3] + (draw(gen.tile),))
        for k in ("props", "bprops", "ents"):
            have = {x[0] for x in b[k]}
            for o in a[k][:2]:
                if o[0] not in have:
                    b[k].append(o[:-1] + (draw(gen.prop if k != "ents" else gen.typed_ent),))
    return a, b


SUBS = [Sub("merge", lambda: st.tuples(pairs(), st.sampled_from([None, None, True, False]), edits).map(lambda c: (c[0][0], c[0][1], c[1], c[2])), merge, 4000)]
