"""The JSON form of variables: natural values plus a schema, built independently."""
NAMES = {"b": "bool", "i": "int", "u": "uint", "f": "float", "s": "string", "v": "vec2"}


class Conflict(Exception):
    pass


def unify(a, b):
    """None stands for the unknown element schema of an array of arrays."""
    if a is None or b is None:
        return b if a is None else a
    if isinstance(a, str) or isinstance(b, str):
        if a != b:
            raise Conflict()
        return a
    if a[0] != b[0]:
        raise Conflict()
    if a[0] == "d":
        out = dict(a[1])
        for k, v in b[1].items():
            out[k] = unify(out[k], v) if k in out else v
        return ("d", out)
    return ("a", unify(a[1], b[1]))


def schema(v):
    t = v[0]
    if t == "d":
        return ("d", {k: schema(x) for k, x in v[1]})
    if t == "a":
        s = {"d": ("d", {}), "a": ("a", None)}.get(v[1], v[1])
        for x in v[2]:
            s = unify(s, schema(x))
        return ("a", s)
    return t


def jschema(s):
    if isinstance(s, str):
        return NAMES[s]
    if s[0] == "d":
        return {k: jschema(v) for k, v in s[1].items()}
    return [] if s[1] is None else [jschema(s[1])]


def jvalue(v):
    t = v[0]
    if t == "s":
        return v[1].decode("latin1")
    if t == "v":
        return list(v[1])
    if t == "d":
        return {k: jvalue(x) for k, x in v[1]}
    if t == "a":
        return [jvalue(x) for x in v[2]]
    return v[1]


def document(v):
    """{"schema":..., "vars":...}; raises Conflict when there is none."""
    return {"schema": jschema(schema(v)), "vars": jvalue(v)}
