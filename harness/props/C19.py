import dustmaker
from dustmaker.entity import Entity
from dustmaker.exceptions import LevelException
from dustmaker.level import Level
from dustmaker.prop import Prop
from hypothesis import strategies as st

from ..engine import Sub, check, observing, raises, same
from .. import fileview, gen

ID = "C19"
RULE = "an id is assigned automatically after another operation touched the ids"
ASSUMPTIONS = ["explicit ids are 0 or more; backdrops hold props only"]


def prop():
    return Prop(1, 0, False, False, 1.0, 1, 2, 3, 4)


def used(lv):
    return set(lv.props) | set(lv.entities) | set(lv.backdrop.props)


def snapshot(lv):
    with observing("level"):
        return ({k: id(v[3]) for k, v in lv.props.items()}, {k: id(v[2]) for k, v in lv.entities.items()},
                {k: id(v[3]) for k, v in lv.backdrop.props.items()})


def history(case, t):
    levels = [Level(), Level()]
    last = [0, 0]  # last id handed out automatically since the last reset
    touched = autos = 0
    for n, (op, which, arg, flag) in enumerate(case):
        lv = levels[which]
        where = "step %d (%s)" % (n, op)
        if op in ("prop", "bprop", "ent"):
            d = {"prop": lv.props, "bprop": lv.backdrop.props, "ent": lv.entities}[op]

            def add(i=None, kw=flag):
                a = () if i is None and not kw else (i,)
                if op == "ent":
                    return lv.add_entity(1.0, 2.0, Entity(), *a)
                return (lv if op == "prop" else lv.backdrop).add_prop(5, 1.0, 2.0, prop(), *a)
            before, bu = snapshot(lv), used(lv)
            if arg is None:
                i = add()
                check(type(i) is int and i >= 0, "%s: assigned id %r", where, i)
                check(i not in bu, "%s: assigned id %r is already in use", where, i)
                last[which] = i
                autos += 1
                t.nontrivial(touched)
                t.label("auto after " + case[n - 1][0] if n else "auto first")
            else:
                if isinstance(arg, tuple):  # relative to the ids in use
                    pool = sorted(bu) or [100]
                    i = max(0, pool[arg[0] % len(pool)] + arg[1])
                else:
                    i = arg
                if i in d:
                    raises(LevelException, where + ": adding under id %d in use" % i, add, i)
                    same(snapshot(lv), before, where + ": level after the refused addition")
                    t.label("duplicate refused")
                    continue
                r = add(i)
                check(r == i, "%s: returned %r for explicit id %d", where, r, i)
                touched += 1
            after = snapshot(lv)
            k = {"prop": 0, "ent": 1, "bprop": 2}[op]
            check(i in after[k], "%s: id %r missing afterwards", where, i)
            got = [dict(x) for x in after]
            del got[k][i]
            same(got, [dict(x) for x in before], where + ": other content")
        elif op == "many":
            kind, n_many, base, rev = arg
            d = {"prop": lv.props, "bprop": lv.backdrop.props, "ent": lv.entities}[kind]
            seq = range(n_many)[::-1] if rev else range(n_many)
            for k in seq:
                bu = used(lv)
                i = None if base is None else base + k
                if i in d:
                    continue
                if kind == "ent":
                    r = lv.add_entity(1.0, 2.0, Entity(), i)
                else:
                    r = (lv if kind == "prop" else lv.backdrop).add_prop(5, 1.0, 2.0, prop(), i)
                if i is None:
                    check(type(r) is int and r >= 0 and r not in bu, "%s: assigned id %r is already in use", where, r)
                    last[which] = r
                else:
                    check(r == i, "%s: returned %r for explicit id %d", where, r, i)
            touched += 1
        elif op == "del":
            pools = [d for d in (lv.props, lv.entities, lv.backdrop.props) if d]
            if pools:
                d = pools[arg % len(pools)]
                ks = sorted(d)
                d.pop(ks[-1] if flag else ks[arg // 3 % len(ks)])
                touched += 1
        elif op == "remap":
            sizes = [len(x) for x in snapshot(lv)]
            if arg is None:
                lv.remap_ids()
            else:
                lv.remap_ids(arg)
            same([len(x) for x in snapshot(lv)], sizes, where + ": numbers of objects")
            last[which] = 0
            touched += 1
        elif op == "merge":
            other = levels[1 - which]
            keep = used(other)
            lv.merge(other, remap_ids=flag) if arg % 2 or not flag else lv.merge(other)
            same(used(other), keep, where + ": ids of the merged level")
            check(keep <= used(lv), "%s: ids %r missing", where, keep - used(lv))
            if flag:
                last = [0, 0]
            touched += 1
        elif op == "max":
            u = used(lv)
            m = lv.calculate_max_id() if flag else lv.calculate_max_id(False) if arg % 2 else lv.calculate_max_id(reset=False)
            check(m >= 100, "%s: maximum %r below 100", where, m)
            check(all(m >= i for i in u), "%s: maximum %r, ids in use up to %r", where, m, max(u, default=0))
            if flag:
                check(m == max([100, *u]), "%s: maximum after reset %r, ids in use up to %r", where, m, max(u, default=0))
                last[which] = 0
            else:
                check(m >= last[which], "%s: maximum %r below the last assigned id %r", where, m, last[which])
            same(used(lv), u, where + ": ids")
            touched += 1
        elif op == "direct":  # objects put straight into the dictionaries, then the ids are recounted
            kind, ids_, how = arg
            d = {"prop": lv.props, "bprop": lv.backdrop.props, "ent": lv.entities}[kind]
            for i in ids_:
                if isinstance(i, tuple):
                    i = max(0, max(used(lv), default=100) + i[1])
                if i not in d:
                    d[i] = (1.0, 2.0, Entity()) if kind == "ent" else (5, 1.0, 2.0, prop())
            u = used(lv)
            if how == 0 and max(u, default=0) < 2**31 - 10 and last[which] < 2**31 - 10:
                data = dustmaker.write_level(lv)
                nxt = fileview.decode(data)["next_id"]
                check(all(nxt > i for i in u), "%s: file records next id %d, ids in use up to %d", where, nxt, max(u, default=0))
                levels[which] = dustmaker.read_level(data)
                same(used(levels[which]), u, where + ": ids")
            else:
                m = lv.calculate_max_id(reset=how == 1)
                check(all(m >= i for i in u), "%s: maximum %r, ids in use up to %r", where, m, max(u, default=0))
                if how == 1:
                    check(m == max([100, *u]), "%s: maximum after reset %r, ids in use up to %r", where, m, max(u, default=0))
                    last[which] = 0
            touched += 1
        elif op == "reload":
            u = used(lv)
            if max(u, default=0) >= 2**31 - 10 or last[which] >= 2**31 - 10:
                continue
            data = dustmaker.write_level(lv)
            nxt = fileview.decode(data)["next_id"]
            check(all(nxt > i for i in u), "%s: file records next id %d, ids in use up to %d", where, nxt, max(u, default=0))
            check(nxt > last[which], "%s: file records next id %d, last assigned id %d", where, nxt, last[which])
            levels[which] = dustmaker.read_level(data)
            same(used(levels[which]), u, where + ": ids")
            touched += 1
    t.label("%d automatic" % min(autos, 5))


explicit = st.one_of(st.integers(0, 130), st.integers(98, 112), gen.ints(0, 2**30), gen.ints(0, 2**31 - 2), st.tuples(st.integers(0, 30), st.integers(-2, 3)))
w = st.sampled_from([0, 0, 1])
op = st.one_of(
    st.tuples(st.sampled_from(["prop", "bprop", "ent"]), w, st.none(), st.booleans()),
    st.tuples(st.sampled_from(["prop", "bprop", "ent"]), w, st.one_of(st.none(), explicit), st.just(False)),
    st.tuples(st.just("del"), w, st.integers(0, 30), st.booleans()),
    st.tuples(st.just("remap"), w, st.one_of(st.none(), st.integers(0, 130), gen.ints(1, 2**20)), st.just(False)),
    st.tuples(st.just("merge"), w, st.integers(0, 1), st.booleans()),
    st.tuples(st.just("max"), w, st.integers(0, 1), st.booleans()),
    st.tuples(st.just("many"), w, st.tuples(st.sampled_from(["prop", "bprop", "ent"]), gen.size(1, 60, 14),
              st.one_of(st.none(), st.integers(0, 130), gen.ints(0, 2**30)), st.booleans()), st.just(False)),
    st.tuples(st.just("reload"), w, st.just(0), st.just(False)),
    st.tuples(st.just("direct"), w, st.tuples(st.sampled_from(["prop", "bprop", "ent"]), st.lists(explicit, min_size=1, max_size=3), st.integers(0, 2)), st.just(False)),
)
SUBS = [Sub("histories", lambda: st.lists(op, min_size=2, max_size=25), history, 24000)]
