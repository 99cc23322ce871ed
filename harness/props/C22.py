import json

from dustmaker.cmd.variables import json_to_variables, variables_to_json
from hypothesis import strategies as st

from ..engine import Sub, check, observing, raises, same
from .. import gen, jsonmodel
from ..model import mkvar, unordered, vview

ID = "C22"
RULE = "the tree contains an array or a struct with at least one element"


def depth(v):
    if v[0] == "d":
        return 1 + max([depth(x) for _, x in v[1]], default=0)
    if v[0] == "a":
        return 1 + max([depth(x) for x in v[2]], default=0)
    return 0


def roundtrip(case, t):
    spec, style = case
    var = mkvar(spec)
    try:
        jsonmodel.schema(spec)
        fits = True
    except jsonmodel.Conflict:
        fits = False
    if not fits:
        raises(Exception, "variables_to_json of elements without a common schema", variables_to_json, var)
        t.label("refused")
    else:
        schema, jvars = variables_to_json(var)
        kw = {0: {}, 1: {"indent": 4}, 2: {"ensure_ascii": False}, 3: {"sort_keys": True}}[style]
        text = json.dumps({"schema": schema, "vars": jvars}, **kw)
        doc = json.loads(text)
        back = json_to_variables(doc["schema"], doc["vars"])
        with observing("variable"):
            same(unordered(vview(back)), unordered(spec), "variable after JSON %s" % text[:300])
        check(back == var, "variable after JSON is not equal")
        t.label("converted")
        t.label("depth%d" % depth(spec))
    with observing("variable"):
        same(vview(var), spec, "the variable converted")
    t.nontrivial(spec[0] in "da" and len(spec[-1]) > 0)


def documents(case, t):
    """A document written by hand in the same form is read as meant."""
    spec = case
    try:
        doc = jsonmodel.document(spec)
    except jsonmodel.Conflict:
        return
    doc = json.loads(json.dumps(doc))
    back = json_to_variables(doc["schema"], doc["vars"])
    with observing("variable"):
        same(unordered(vview(back)), unordered(spec), "variable from %s" % json.dumps(doc)[:300])
    t.nontrivial(spec[0] in "da" and len(spec[-1]) > 0)


keys = st.sampled_from(["a", "b", "c"])


def _arr(et, kids):
    return gen.many(kids, 3, 20).map(lambda xs: ("a", et, tuple(xs)))


def trees(d, tag=None):
    """Trees over few keys and types, so that schemas often meet."""
    leaf = {"i": st.integers(-3, 3).map(lambda v: ("i", v)), "u": st.integers(0, 3).map(lambda v: ("u", v)),
            "s": st.binary(max_size=3).map(lambda v: ("s", v)), "b": st.booleans().map(lambda v: ("b", v)),
            "f": st.sampled_from([0.0, 1.0, -2.5, 1e-7]).map(lambda v: ("f", v)),
            "v": st.sampled_from([(0.0, 1.0), (2.0, -3.5)]).map(lambda v: ("v", v))}
    if tag in leaf:
        return leaf[tag]
    if tag == "d":
        # each key has a usual type, sometimes another one
        usual = {"a": "i", "b": "a", "c": "d"}
        def entry(k):
            if d <= 0:
                return st.tuples(st.just(k), leaf["i"])
            return st.one_of(*([st.tuples(st.just(k), trees(d - 1, usual[k]))] * 5), st.tuples(st.just(k), trees(d - 1, "s")))
        return st.lists(keys.flatmap(entry), max_size=3, unique_by=lambda kv: kv[0]).map(lambda kvs: ("d", tuple(kvs)))
    if tag == "a":
        if d <= 0:
            return st.sampled_from("iiiiis").flatmap(lambda e: _arr(e, leaf[e]))
        return st.sampled_from("iiaaaddd" + "s").flatmap(lambda e: _arr(e, trees(d - 1, e)))
    return st.sampled_from("adad" + "iusbfv").flatmap(lambda e: trees(d, e))


def _late(v):
    """An array of many like elements and a few special ones anywhere."""
    et, usual, special, n = v
    xs = [usual] * n
    for at, x in special:
        xs.insert(at % (n + 1) if at % 3 else n, x)
    return ("a", et, tuple(xs))


long_trees = st.one_of(
    st.sampled_from("dddai").flatmap(lambda e: st.tuples(st.just(e), trees(1, e), st.lists(st.tuples(st.integers(0, 9999), trees(2, e)), max_size=2),
                                                         gen.size(1, 1200, 200)).map(_late)),
    st.builds(lambda n, s: ("s", gen.pattern(n, s)), st.one_of(gen.size(0, 70000, 5000), st.sampled_from([65535, 65536, 70000, 200000])), st.integers(0, 9)),
    st.builds(lambda n, v: ("d", tuple(("k%d" % i, v) for i in range(n))), gen.size(1, 1200, 200), trees(1)),
)
SUBS = [
    Sub("any", lambda: st.tuples(st.one_of(gen.leaf, gen.array(3), gen.array(2), gen.struct(3)), st.integers(0, 3)), roundtrip, 6000),
    Sub("structs", lambda: st.tuples(gen.struct(3), st.integers(0, 3)), roundtrip, 2500),
    Sub("meeting-schemas", lambda: st.tuples(trees(3), st.integers(0, 3)), roundtrip, 9000),
    Sub("long", lambda: st.tuples(long_trees, st.integers(0, 3)), roundtrip, 250),
    Sub("documents", lambda: st.one_of(trees(3), gen.var(2)), documents, 5000),
]
