import io

from dustmaker import variable as V
from dustmaker.dfwriter import DFWriter
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, observing, raises, same
from .. import gen
from .. import refcodec as R
from ..model import VCLS, VTAG, floaty, mkvar, quant, unordered, vview

ID = "C27"
RULE = "an array is changed at least twice, with a negative or out-of-range index, a refused value or a nested element type"
ASSUMPTIONS = ["no slices; refused values are of clearly different Python types"]


def raw(v):
    """Unboxed Python value of an element spec."""
    if v[0] == "d":
        return {k: mkvar(x) for k, x in v[1]}
    if v[0] == "a":
        return (VCLS[v[1]], [mkvar(x) for x in v[2]])
    return v[1]


def canon(tag, val):
    """Unboxed value returned by the array -> spec"""
    with observing("element"):
        if tag == "d":
            check(type(val) is dict, "struct element unboxed as %r", val)
            return unordered(("d", tuple((k, vview(x)) for k, x in val.items())))
        if tag == "a":
            check(isinstance(val, tuple) and len(val) == 2, "array element unboxed as %r", val)
            return unordered(("a", VTAG[val[0]], tuple(vview(x) for x in val[1])))
        return unordered(vview(VCLS[tag](val)))


BAD = {"b": [None, b"x", 3.5, "t"], "i": [None, b"x", 1.5, "7", 2**31, -(2**31) - 1], "u": [None, b"x", 2.5, -1, 2**32],
       "f": [None, b"x", "1.0"], "s": [None, "text", 7, 1.5], "v": [None, 1.0, (1.0,), (1.0, 2.0, 3.0), b"xx", (b"a", 1.0)],
       "d": [5, {"a": 1}, {1: "var"}, {"k": None}], "a": [None, 5, "elem", "notype"]}


def badval(tag, b):
    if tag == "a" and b == "elem":
        return (V.VariableInt, [V.VariableBool(True)])
    if tag == "a" and b == "notype":
        return (int, [])
    if tag == "d" and isinstance(b, dict) and "var" in b.values():
        return {1: V.VariableInt(3)}
    return b


def spoil(vals):
    """The caller goes on using the containers whose values it put into the array."""
    for x in vals:
        if type(x) is dict:
            x["spoiled"] = V.VariableBool(True)
        elif type(x) is tuple and len(x) == 2 and type(x[1]) is list:
            x[1].append(V.VariableArray(V.VariableBool) if x[0] is V.VariableArray else x[0]())
            x[1].reverse()


class Arr:
    def __init__(self, tag, init, mode):
        self.tag = tag
        self.m = list(init)
        if mode == 0 and not init:
            self.a = V.VariableArray(VCLS[tag])
            self.given = None
        else:
            self.given = [mkvar(x) for x in init]
            self.a = V.VariableArray(VCLS[tag], self.given)
            if mode == 2:  # the caller's list is used for something else afterwards
                self.given.append(mkvar(("i", 1)))
                self.given.reverse()
                self.given = None

    def find(self, v, lo=0, hi=None):
        u = unordered(v)
        for i in range(*slice(lo, hi).indices(len(self.m))):
            if unordered(self.m[i]) == u:
                return i
        return -1


def history(case, t):
    tag, init, mode, ops = case
    arrs = [Arr(tag, init, mode), Arr(tag, (), 0)]
    changes = odd = 0
    for n, (op, which, i, v, extra) in enumerate(ops):
        ar = arrs[which]
        a, m = ar.a, ar.m
        where = "step %d (%s)" % (n, op)
        inside = -len(m) <= i < len(m)
        odd += i < 0 or not inside
        if op == "get":
            if inside:
                same(canon(tag, a[i]), unordered(m[i]), where + " [%d]" % i)
            else:
                raises(IndexError, where + " [%d] of %d elements" % (i, len(m)), lambda: a[i])
        elif op == "set":
            if inside:
                x = raw(v)
                a[i] = x
                spoil([x])
                m[i] = v
                changes += 1
            else:
                raises(IndexError, where + " [%d] of %d elements" % (i, len(m)), a.__setitem__, i, raw(v))
        elif op == "delitem":
            if inside:
                del a[i]
                del m[i]
                changes += 1
            else:
                raises(IndexError, where + " [%d] of %d elements" % (i, len(m)), a.__delitem__, i)
        elif op == "insert":
            x = raw(v)
            a.insert(i, x)
            spoil([x])
            m.insert(i, v)
            changes += 1
        elif op == "append":
            x = raw(v)
            a.append(x)
            spoil([x])
            m.append(v)
            changes += 1
        elif op == "extend":
            vals = [raw(x) for x in extra]
            (a.extend if i % 2 else a.__iadd__)(vals if i % 3 else iter(vals))
            spoil(vals)
            m.extend(extra)
            changes += 1
        elif op == "iadd":
            b = a
            vals = [raw(x) for x in extra]
            b += vals
            spoil(vals)
            check(b is a, "%s made a new array", where)
            m += extra
            changes += 1
        elif op == "extend_other":
            o = arrs[i % 2]
            if len(m) + len(o.m) < 500:
                a.extend(o.a)
                m.extend(list(o.m))
                changes += 1
        elif op == "pop":
            if extra == ():
                if m:
                    same(canon(tag, a.pop()), unordered(m.pop()), where)
                    changes += 1
                else:
                    raises(IndexError, where + " from an empty array", a.pop)
            elif inside:
                same(canon(tag, a.pop(i)), unordered(m.pop(i)), where + " [%d]" % i)
                changes += 1
            else:
                raises(IndexError, where + " [%d] of %d elements" % (i, len(m)), a.pop, i)
        elif op in ("remove", "contains", "index", "count"):
            x = m[i % len(m)] if m and extra else v
            k = ar.find(x)
            if op == "contains":
                check((raw(x) in a) is (k >= 0), "%s of %r is %r", where, x, raw(x) in a)
                check(None not in a, "None is in the array")
            elif op == "count":
                want = sum(unordered(y) == unordered(x) for y in m)
                check(a.count(raw(x)) == want, "%s of %r is %r, expected %d", where, x, a.count(raw(x)), want)
            elif op == "index":
                if len(extra) > 1 and 0 <= i:
                    k = ar.find(x, i)
                    args = (raw(x), i)
                else:
                    args = (raw(x),)
                if k >= 0:
                    check(a.index(*args) == k, "%s of %r is %r, expected %d", where, x, a.index(*args), k)
                else:
                    raises(ValueError, where + " of an absent value", a.index, *args)
            elif k >= 0:
                a.remove(raw(x))
                del m[k]
                changes += 1
            else:
                raises(ValueError, where + " of an absent value", a.remove, raw(x))
        elif op == "reverse":
            a.reverse()
            m.reverse()
            changes += 1
        elif op == "clear":
            a.clear()
            m.clear()
            changes += 1
        elif op == "iterate":
            same([canon(tag, x) for x in a], [unordered(x) for x in m], where)
            same([canon(tag, x) for x in reversed(a)], [unordered(x) for x in reversed(m)], where + " reversed")
            check(bool(a) == bool(m), "truth value is %r with %d elements", bool(a), len(m))
        elif op == "bad":
            b = badval(tag, BAD[tag][abs(i) % len(BAD[tag])])
            how = len(extra) % 3
            if how == 0:
                raises(Exception, where + ": append(%r)" % (b,), a.append, b)
            elif how == 1:
                raises(Exception, where + ": insert(%r)" % (b,), a.insert, 0, b)
            elif m:
                raises(Exception, where + ": [0] = %r" % (b,), a.__setitem__, 0, b)
            odd += 1
            t.label("refused")
        for k, x in enumerate(arrs):
            with observing("array"):
                check(len(x.a) == len(x.m), "%s: array %d has length %d, expected %d", where, k, len(x.a), len(x.m))
                check(x.a.element_type is VCLS[tag], "%s: element type became %r", where, x.a.element_type)
                same(unordered(vview(x.a)), unordered(("a", tag, tuple(x.m))), "%s: array %d" % (where, k))
        for x in arrs:
            if x.given is not None:
                check(len(x.given) == len(init), "%s: the list given to the constructor changed", where)
    t.nontrivial(changes >= 2 and (odd or tag in "da"))
    t.label("element type " + tag)
    # the file holds the current contents
    s = io.BytesIO()
    with DFWriter(s, noclose=True) as w:
        w.write_var_file(b"DF_T", {"a": arrs[0].a, "b": arrs[1].a})
    try:
        got = R.decode_var_file(s.getvalue(), b"DF_T")
    except R.RefError as e:
        raise Violation("written arrays do not follow the format: %s" % e) from e
    want = ("d", (("a", ("a", tag, tuple(arrs[0].m))), ("b", ("a", tag, tuple(arrs[1].m)))))
    same(unordered(floaty(got)), unordered(quant(want)), "serialized arrays")


OPS = ["get", "set", "delitem", "insert", "insert", "append", "append", "extend", "iadd", "extend_other", "pop", "pop", "remove",
       "contains", "index", "count", "reverse", "clear", "iterate", "bad", "bad"]


def cases(tag):
    el = gen.typed(tag, 1)
    # a small pool, so that equal elements occur
    pool = st.lists(el, min_size=1, max_size=3)

    def build(p):
        e = st.one_of(st.sampled_from(p), st.sampled_from(p), el)
        return st.tuples(st.just(tag), gen.many(e, 4, 300 if tag not in "da" else 70).map(tuple), st.integers(0, 2), st.lists(
            st.tuples(st.sampled_from(OPS), st.sampled_from([0, 0, 1]), st.one_of(st.integers(-6, 7), st.integers(-6, 7), gen.ints(-310, 310)), e,
                      gen.many(e, 3, 60).map(tuple)), min_size=1, max_size=12))
    return pool.flatmap(build)


SUBS = [Sub("histories", lambda: st.sampled_from("biufsvda").flatmap(cases), history, 8000)]
