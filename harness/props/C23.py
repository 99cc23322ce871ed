import contextlib
import io
import json
import os
import sys
import types

import dustmaker
from hypothesis import strategies as st

from ..engine import Sub, Violation, check, same
from .. import cli, encplan, fileview, gen, jsonmodel
from .. import refcodec as R
from ..model import expand, floaty, mklevel, quant, unordered

ID = "C23"
RULE = "the target file has variables or regions, or the command is one that must be refused"
ASSUMPTIONS = ["JSON documents have the form the command itself prints",
               "image conversion runs against a stand-in for the Pillow library, which is not installed here"]
HEADERS = (b"DF_STA", b"DF_CFG", b"DF_FOG")
KNOWN = HEADERS + (b"DF_LVL",)


def make(obj):
    """obj: ("level", spec, plan) or (header, vars). Returns (bytes, vars, facts to be kept)."""
    if obj[0] == "level":
        data = encplan.build(expand(obj[1]), obj[2])[0]
        if obj[3]:
            data = dustmaker.write_level(dustmaker.read_level(data))
    else:
        data = R.encode_var_file(obj[0], obj[1])
    return data


def facts(data, what):
    """(kind, vars, rest): rest is what a variable edit must not change."""
    if data[:6] == b"DF_LVL":
        dec = fileview.decode(data, what, regions=False)
        return "level", floaty(dec["vars"]), {"sshot": dec["sshot"], "offsets": dec["offsets"], "regions": data[dec["base"]:],
                                              "next_id": dec["next_id"]}
    try:
        vs = R.decode_var_file(data, data[:6])
    except R.RefError as e:
        raise Violation("%s does not follow the format: %s" % (what, e)) from e
    return data[:6], floaty(vs), {}


def kept(got, want, what):
    check(got["next_id"] >= want["next_id"], "%s: next id fell from %d to %d", what, want["next_id"], got["next_id"]) if "next_id" in want else None
    for k in ("sshot", "offsets", "regions"):
        if k in want:
            same(got.get(k), want[k], "%s: %s" % (what, k))


def variables(case, t):
    obj, new, indent = case
    data = make(obj)
    kind, vs, rest = facts(data, "input file")
    with cli.scratch() as d:
        p = cli.put(d, "object", data)
        r = cli.run("variables", p, *([] if indent is None else ["--indent", indent]))
        same(cli.get(p), data, "file after printing its variables")
        try:
            jsonmodel.schema(vs)
            fits = True
        except jsonmodel.Conflict:
            fits = False
        if not fits:
            check(not r.ok, "variables without a common schema were printed: %s", r.out[:200])
            t.label("no schema")
        else:
            check(r.ok, "printing the variables failed: %r", r)
            try:
                doc = json.loads(r.out)
            except ValueError as e:
                raise Violation("printed variables are not JSON: %s" % e) from e
            check(isinstance(doc, dict) and set(doc) >= {"schema", "vars"}, "printed document has keys %r", sorted(doc))
            same(doc["vars"], json.loads(json.dumps(jsonmodel.jvalue(vs))), "printed values")
            q = cli.put(d, "vars.json", r.out.encode("utf-8"))
            r = cli.run("variables", p, q)
            check(r.ok, "applying the printed variables failed: %r", r)
            k2, vs2, rest2 = facts(cli.get(p), "file after applying its own variables")
            check(k2 == kind, "file type changed from %r to %r", kind, k2)
            same(unordered(vs2), unordered(vs), "variables after applying them unedited")
            kept(rest2, rest, "after applying variables unedited")
        if new is not None:
            try:
                doc = jsonmodel.document(new)
            except jsonmodel.Conflict:
                return
            q = cli.put(d, "new.json", json.dumps(doc).encode())
            r = cli.run("variables", p, q)
            check(r.ok, "updating the variables failed: %r", r)
            k2, vs2, rest2 = facts(cli.get(p), "updated file")
            check(k2 == kind, "file type changed from %r to %r", kind, k2)
            same(unordered(vs2), unordered(quant(new)), "updated variables")
            kept(rest2, rest, "after updating the variables")
            same(sorted(os.listdir(d)), sorted(set(os.listdir(d)) & {"object", "vars.json", "new.json"}), "files created")
    t.nontrivial(vs[1] or rest.get("offsets"))
    t.label(str(kind))
    if kind == "level":
        t.label("regions" if rest["offsets"] else "no regions")


def from_scratch(case, t):
    header, new, exists = case
    try:
        doc = jsonmodel.document(new)
    except jsonmodel.Conflict:
        return
    with cli.scratch() as d:
        p = os.path.join(d, "object")
        if exists is not None:
            cli.put(d, "object", exists)
        q = cli.put(d, "new.json", json.dumps(doc).encode())
        r = cli.run("variables", p, q, "--header", header)
        if header.encode() not in HEADERS:
            check(not r.ok, "wrote a file with header %r", header)
            check(os.path.exists(p) == (exists is not None) and (exists is None or cli.get(p) == exists),
                  "refused header %r changed the file", header)
            t.label("refused")
        else:
            check(r.ok, "writing a %s file failed: %r", header, r)
            k, vs, _ = facts(cli.get(p), "new file")
            check(k == header.encode(), "header %r instead of %r", k, header)
            same(unordered(vs), unordered(quant(new)), "variables of the new file")
            t.label("written")
    t.nontrivial(new[1] or header.encode() not in HEADERS)


class FakeImage:
    odd = False

    def __init__(self, data, size=(640, 480)):
        self.data, self.size = data, size
        self.width, self.height = size
        self.format = self.mode = "X"

    def resize(self, size, *a, **k):
        return FakeImage(b"R" + repr(tuple(size)).encode() + self.data, tuple(size))

    def save(self, fp, format=None, **k):  # noqa
        fp.write(b"IMG" + str(format).encode() + self.data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, name):
        FakeImage.odd = True
        raise AttributeError(name)


@contextlib.contextmanager
def fake_pil(present=True):
    def open_(p, *a, **k):
        data = p.read() if hasattr(p, "read") else cli.get(p)
        if data.startswith(b"BAD"):
            raise OSError("cannot identify image file")
        return FakeImage(data)
    FakeImage.odd = False
    pil, image = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
    image.open = open_
    pil.Image = image
    old = {k: sys.modules.get(k) for k in ("PIL", "PIL.Image")}
    sys.modules["PIL"], sys.modules["PIL.Image"] = (pil, image) if present else (None, None)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)  # not imported before
            else:
                sys.modules[k] = v


def thumbnail(case, t):
    obj, image, opts, exists = case
    data = make(obj)
    kind, vs, rest = facts(data, "input file")
    update = any(o in opts for o in ("--update", "--auto-convert", "--auto-scale"))
    convert = "--auto-convert" in opts or "--auto-scale" in opts
    with cli.scratch() as d:
        p = cli.put(d, "object", data)
        q = os.path.join(d, "image.png")
        if exists:
            cli.put(d, "image.png", image)
        r = cli.run("thumbnail", p, q, *opts, inject=fake_pil(exists != "no PIL") if convert else None)
        if convert and FakeImage.odd:
            return  # the stand-in is not good enough for this tree
        now = cli.get(p)
        if not update:
            same(now, data, "level file after extraction")
            if exists and "--force" not in opts:
                check(not r.ok, "existing image accepted without --force")
                same(cli.get(q), image, "existing image")
                t.label("refused")
            else:
                check(r.ok, "extraction failed: %r", r)
                same(cli.get(q), rest["sshot"], "extracted thumbnail")
                t.label("extracted")
        elif not exists or convert and (image.startswith(b"BAD") or exists == "no PIL"):
            check(not r.ok, "update from an unusable image reported success")
            same(now, data, "level file after a failed update")
            t.label("failed update")
        else:
            check(r.ok, "updating the thumbnail failed: %r", r)
            k2, vs2, rest2 = facts(now, "updated file")
            want = image
            if convert:
                want = b"IMGPNG" + (b"R(382, 182)" if "--auto-scale" in opts else b"") + image
            same(rest2["sshot"], want, "thumbnail after the update")
            same(cli.get(q), image, "image file")
            exp = {k: v for k, v in vs[1]}
            exp["icon_taken"] = ("b", True)
            same({k: unordered(v) for k, v in vs2[1]}, {k: unordered(v) for k, v in exp.items()}, "variables after the update")
            kept(rest2, dict(rest, sshot=want), "after updating the thumbnail")
            t.label("updated")
    t.nontrivial(True)


def spoil(doc, how, n):
    """Broken JSON documents. None if this one cannot be broken so."""
    if how == "syntax":
        s = json.dumps(doc)
        return s[:max(1, len(s) * (n % 100) // 100)].encode()
    if how == "empty":
        return b""
    if how == "nokey":
        doc = dict(doc)
        del doc["schema" if n % 2 else "vars"]
        return json.dumps(doc).encode()
    doc = json.loads(json.dumps(doc))
    bad = {"key": ("no spaces", "int", 1), "longkey": ("k" * 64, "int", 1), "range": ("zz", "int", 2**31 + n), "urange": ("zz", "uint", -1 - n),
           "type": ("zz", "int", "text"), "btype": ("zz", "bool", 3), "schema": ("zz", "nonsense", 1), "uni": ("zz", "string", "\u20ac"),
           "vec": ("zz", "vec2", [1.0]), "elem": ("zz", ["int"], [1, "x"]), "hole": ("zz", None, 1)}[how]
    doc["schema"][bad[0]] = bad[1]
    if how == "hole":
        del doc["schema"][bad[0]]
    doc["vars"][bad[0]] = bad[2]
    return json.dumps(doc).encode()


def failures(case, t):
    obj, new, how, n = case
    data = make(obj)
    if how == "header":
        k = n // 8
        h = bytearray(KNOWN[k % 4])
        if n % 8 < 5:  # one character off
            h[k // 4 % 6] = (65 + k % 26, h[k // 4 % 6] ^ 32, 48 + k % 10, (h[k // 4 % 6] + 1) % 256, h[k % 6])[n % 8]
        elif n % 8 < 7:  # mixed
            h[3 + k % 3:] = KNOWN[k // 4 % 4][3 + k % 3:]
            h[5] = 65 + k // 16 % 26
        else:
            h[3:] = (65 + k % 26, 66, 67)
        data = bytes(h) + data[6:]
        if data[:6] in HEADERS + (b"DF_LVL",):
            return
    elif how == "truncate":
        # variable files are rewritten from scratch, only their header matters
        base = fileview.decode(data, "input", regions=False)["base"] if data[:6] == b"DF_LVL" else 6
        data = data[:n % base]
    elif how == "version":
        if data[:6] != b"DF_LVL":
            return
        data = data[:6] + (n % 42).to_bytes(2, "little") + data[8:]
    try:
        doc = jsonmodel.document(new)
    except jsonmodel.Conflict:
        return
    with cli.scratch() as d:
        p = cli.put(d, "object", data)
        q = os.path.join(d, "new.json")
        inject = None
        if how == "missing":
            pass
        elif how == "open":
            cli.put(d, "new.json", json.dumps(doc).encode())
            inject = cli.no_write_open()
        elif how in ("header", "truncate", "version"):
            cli.put(d, "new.json", json.dumps(doc).encode())
        else:
            cli.put(d, "new.json", spoil(doc, how, n))
        r = cli.run("variables", p, q, inject=inject)
        check(not r.ok, "%s: the command reported success", how)
        same(cli.get(p), data, "file after a failed update (%s)" % how)
        if how in ("header", "truncate", "version"):
            r = cli.run("variables", p)
            if how == "header":
                check(not r.ok, "%s: printing reported success", how)
            same(cli.get(p), data, "file after printing")
            img = cli.put(d, "img", b"PNG")
            r = cli.run("thumbnail", p, img, "--update")
            check(not r.ok, "%s: thumbnail update reported success", how)
            same(cli.get(p), data, "file after a failed thumbnail update (%s)" % how)
            same(cli.get(img), b"PNG", "image")
        elif how == "open" and data[:6] == b"DF_LVL":
            img = cli.put(d, "img", b"PNG")
            r = cli.run("thumbnail", p, img, "--update", inject=cli.no_write_open())
            check(not r.ok, "%s: thumbnail update reported success", how)
            same(cli.get(p), data, "file after a failed thumbnail update (%s)" % how)
    t.nontrivial(True)
    t.label(how)


small_plans = st.one_of(st.just(encplan.PLAIN), encplan.plans)
level_obj = st.tuples(st.just("level"), gen.levels(max_tiles=3, max_props=2, max_ents=2, max_bprops=1), small_plans, st.booleans())
bare_obj = st.tuples(st.just("level"), gen.levels(max_tiles=0, max_props=0, max_ents=0, max_bprops=0).map(
    lambda s: dict(s, btiles=[])), small_plans, st.booleans())
any_level = st.one_of(level_obj, level_obj, bare_obj)
var_obj = st.tuples(st.sampled_from(HEADERS), gen.struct(3))
objs = st.one_of(any_level, any_level, var_obj)
images = st.one_of(gen.byte_strings(60), st.binary(max_size=200), st.just(b"BAD image"), st.builds(gen.pattern, gen.size(0, 40000, 300), st.integers(0, 9)))
OPTS = [[], ["--force"], ["--update"], ["--update"], ["--update", "--force"], ["--auto-convert"], ["--auto-scale"], ["--update", "--auto-scale"],
        ["--auto-convert", "--auto-scale", "--force"]]
HOW = ["syntax", "empty", "nokey", "key", "longkey", "range", "urange", "type", "btype", "schema", "uni", "vec", "elem", "hole", "header",
       "truncate", "version", "missing", "open"]
# files and images of many kilobytes (regions stored uncompressed)
large_obj = st.tuples(st.just("level"), gen.crowded().map(encplan.fits), st.just(dict(encplan.PLAIN, zlevel=0)), st.sampled_from([0, 0, 1]))
large_images = st.builds(gen.pattern, st.sampled_from([4097, 8193, 16385, 32769, 50000, 65535, 65536, 65537, 70000, 131073, 200000, 300000, 600000, 1 << 20, (1 << 20) + 1, (1 << 22) + 1]), st.integers(0, 9))
SUBS = [
    Sub("variables", lambda: st.tuples(objs, st.one_of(st.none(), gen.struct(2), gen.level_vars(1)), st.sampled_from([None, 0, 2, 4])), variables, 900),
    Sub("from-scratch", lambda: st.tuples(st.sampled_from(["DF_STA", "DF_CFG", "DF_FOG", "DF_LVL", "DF_XXX", "df_sta"]), gen.struct(2),
                                          st.one_of(st.none(), st.binary(max_size=20))), from_scratch, 400),
    Sub("thumbnail", lambda: st.tuples(any_level, images, st.sampled_from(OPTS), st.sampled_from([True, True, True, True, False, False, "no PIL"])), thumbnail, 1000),
    Sub("large-variables", lambda: st.tuples(large_obj, st.one_of(st.none(), gen.struct(1)), st.sampled_from([None, 0])), variables, 60, 300),
    Sub("large-thumbnail", lambda: st.tuples(large_obj, st.one_of(large_images, gen.byte_strings(20)), st.sampled_from(OPTS), st.just(True)), thumbnail, 120, 500),
    Sub("large-images", lambda: st.tuples(any_level, large_images, st.sampled_from(OPTS), st.just(True)), thumbnail, 120, 500),
    Sub("failures", lambda: st.tuples(objs, gen.struct(1), st.sampled_from(HOW), st.integers(0, 100000)), failures, 1200),
]
