import json
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

from ..engine import REPO, Sub, Violation, check, same
from .. import cli, encplan, gen, jsonmodel
from .. import refcodec as R
from .C25 import saves

ID = "C34"
RULE = "at least one command of the session succeeded and one entry point was run as a process of its own"
ASSUMPTIONS = ["the console entry point is dustmaker.cmd.main:main; the command modules can be run with python -m",
               "standard output is text; a printed document is compared as JSON, so escaping may differ"]

MODULE = {"variables": "variables", "thumbnail": "thumbnail", "transform": "transform", "saveconvert": "save_convert"}
FORMS = ["package", "main", "module", "module", "wrapper"]
ENCODINGS = ["utf-8", "ascii", "latin-1", "cp1252"]


def argv(form, cmd, args):
    if form == "package":
        return ["-m", "dustmaker", cmd] + args
    if form == "main":
        return ["-m", "dustmaker.cmd.main", cmd] + args
    if form == "module":
        return ["-m", "dustmaker.cmd." + MODULE[cmd]] + args
    return ["-c", "import sys; from dustmaker.cmd.main import main; sys.exit(main())", cmd] + args


def spawn(form, cmd, args, cwd, how):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VERIF"))}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(how % 1000), PYTHONIOENCODING=ENCODINGS[how % 4],
               LC_ALL=("C", "C.UTF-8", "POSIX")[how % 3])
    try:
        r = subprocess.run([sys.executable, "-B"] + argv(form, cmd, args), cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=240)
    except subprocess.TimeoutExpired as e:
        raise Violation("%s (%s) does not terminate" % (cmd, form)) from e
    return r


def arguments(step):
    """The command line of a step; file names are relative to the working directory."""
    kind = step[0]
    if kind == "print":
        return "variables", [step[1]] + (["--indent", str(step[2])] if step[2] is not None else [])
    if kind == "apply":
        return "variables", [step[1], "doc.json"] + (["--header", step[2]] if step[2] else [])
    if kind == "thumbnail":
        return "thumbnail", [step[1], step[2]] + list(step[3])
    if kind == "transform":
        return "transform", list(step[3]) + [step[1], step[2]]
    if kind == "convert":
        return "saveconvert", [step[1], step[2]]
    return step[1], list(step[2])  # usage errors


def in_process(cmd, args, cwd):
    old = os.getcwd()
    os.chdir(cwd)
    try:
        return cli.run(cmd, *args)
    finally:
        os.chdir(old)


def parsed(data, what):
    try:
        return json.loads(data.decode("utf-8"))
    except ValueError as e:
        raise Violation("%s: printed variables are not a UTF-8 JSON document: %s" % (what, e)) from e


def snapshot(d):
    return {n: cli.get(os.path.join(d, n)) for n in os.listdir(d)}


def must_fail(step, files):
    """Commands that cannot succeed, whatever the code does."""
    kind = step[0]
    if kind == "usage":
        return True
    if kind == "print":
        return files.get(step[1], b"")[:6] not in (b"DF_LVL", b"DF_STA", b"DF_CFG", b"DF_FOG")
    if kind == "apply":
        return "doc.json" not in files or step[2] == "DF_XYZ" or not step[2] and files.get(step[1], b"")[:6] not in (b"DF_LVL", b"DF_STA", b"DF_CFG", b"DF_FOG")
    if kind == "convert":
        return files.get(step[1], b"")[:6] != b"DF_STA"
    if files.get(step[1], b"")[:6] != b"DF_LVL":
        return True
    return kind == "thumbnail" and (step[2] not in files if "--update" in step[3] else "--force" not in step[3] and step[2] in files)


def session(case, t):
    spec, plan, vs, stats, image, steps = case
    files = {"lvl": encplan.build(spec, plan)[0], "cfg": R.encode_var_file(b"DF_CFG", vs), "stats0": R.encode_var_file(b"DF_STA", stats), "img": image,
             "short": encplan.build(spec, plan)[0][:len(image) + 40]}
    try:
        files["doc.json"] = json.dumps(jsonmodel.document(vs)).encode()
    except jsonmodel.Conflict:
        pass
    good = 0
    with cli.scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        for w in (a, b):
            os.mkdir(w)
            for n, data in files.items():
                cli.put(w, n, data)
        for step, form, how in steps:
            cmd, args = arguments(step)
            what = "%s (%s) %r" % (cmd, form, args)
            before = snapshot(a)
            r = in_process(cmd, args, a)
            p = spawn(form, cmd, args, b, how)
            check(p.returncode in (0, 1, 2), "%s ended with status %r", what, p.returncode)
            check((p.returncode == 0) == r.ok, "%s: exit status %d as a process, but %r when called; stderr %s", what, p.returncode, r,
                  p.stderr.decode("utf-8", "replace")[-300:])
            after = snapshot(b)
            same(after, snapshot(a), "files after %s" % what)
            check(p.returncode != 0 or not must_fail(step, before), "%s: reported success", what)
            if step[0] == "print":
                if r.ok:
                    same(parsed(p.stdout, what), parsed(r.out.encode("utf-8"), what), "document printed by %s" % what)
                    # the document is then in both folders for later steps
                    cli.put(a, "doc.json", r.out.encode("utf-8"))
                    cli.put(b, "doc.json", r.out.encode("utf-8"))
                    q = shutil.copy(os.path.join(b, step[1]), os.path.join(d, "again"))
                    # what was really printed applies to the same file and says the same
                    cli.put(d, "printed.json", p.stdout)
                    p2 = spawn(form, "variables", [q, os.path.join(d, "printed.json")], d, how)
                    check(p2.returncode == 0, "applying the document printed by %s failed: %s", what, p2.stderr.decode("utf-8", "replace")[-300:])
                    p3 = spawn(form, "variables", [q], d, how + 1)
                    check(p3.returncode == 0, "printing after applying failed: %s", p3.stderr.decode("utf-8", "replace")[-300:])
                    same(parsed(p3.stdout, what), parsed(p.stdout, what), "document printed by %s, applied and printed again" % what)
            if not r.ok:
                same(after, before, "files after the failed %s" % what)
            good += r.ok
            t.label(("ok " if r.ok else "failed ") + step[0])
            t.label("as " + form)
    t.nontrivial(good)


def helps(case, t):
    """Asking for help names the commands, succeeds and touches nothing."""
    form, cmd, how = case
    with cli.scratch() as d:
        if cmd is None:
            args = ["-m", "dustmaker" if form == "package" else "dustmaker.cmd.main", "--help"]
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, "-B"] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
            words = sorted(MODULE)
        else:
            p = spawn(form, cmd, ["--help"], d, how)
            words = {"variables": ["--header", "--indent"], "thumbnail": ["--force", "--update", "--auto-convert", "--auto-scale"],
                     "transform": ["--upscale", "--rotate", "--hflip", "--vflip", "--translate-x", "--translate-y"], "saveconvert": ["stats0", "stats1"]}[cmd]
        check(p.returncode == 0, "--help ended with status %d", p.returncode)
        for w in words:
            check(w.encode() in p.stdout, "--help of %s (%s) does not mention %s", cmd, form, w)
        check(not os.listdir(d), "--help wrote files")
    t.nontrivial(True)


NAMES = ["lvl", "lvl", "lvl", "lvl2", "cfg", "stats0", "stats1", "img", "short", "none"]
LEVELS = ["lvl", "lvl", "lvl", "lvl2", "short", "cfg", "none"]
name = st.sampled_from(NAMES)
lname = st.sampled_from(LEVELS)
topts = st.lists(st.sampled_from(["--upscale=2", "--upscale=1", "--rotate=1", "--rotate=-3", "--hflip", "--vflip", "--translate-x=48", "--translate-y=-96",
                                  "--translate-x=480.0"]), max_size=3, unique=True).map(tuple)
USAGE = [("variables", ()), ("variables", ("lvl", "img", "more")), ("variables", ("lvl", "--indent", "x")), ("variables", ("lvl", "--nonsense")),
         ("thumbnail", ("lvl",)), ("thumbnail", ()), ("thumbnail", ("lvl", "new", "--update=1")), ("transform", ("lvl",)), ("transform", ("lvl", "out", "--rotate=x")),
         ("transform", ("lvl", "out", "--upscale=1.5")), ("transform", ("lvl", "out", "--translate-x=left")), ("transform", ("lvl", "out", "more")),
         ("saveconvert", ("stats0",)), ("saveconvert", ("stats0", "stats1", "stats2")), ("saveconvert", ("stats0", "stats1", "--force"))]
step = st.one_of(
    st.tuples(st.just("print"), st.just("lvl"), st.just(None)),
    st.tuples(st.just("print"), name, st.sampled_from([None, 0, 2])),
    st.tuples(st.just("apply"), name, st.sampled_from(["", "", "", "DF_STA", "DF_CFG", "DF_FOG", "DF_XYZ"])),
    st.tuples(st.just("thumbnail"), lname, st.sampled_from(["img", "img", "new", "lvl"]), st.sampled_from([(), ("--force",), ("--update",), ("--update",)])),
    st.tuples(st.just("transform"), lname, st.sampled_from(["lvl", "lvl2", "out"]), topts),
    st.tuples(st.just("convert"), st.sampled_from(["stats0", "stats0", "stats0", "cfg", "short", "none"]), st.sampled_from(["stats1", "stats1", "stats0"])),
    st.sampled_from(USAGE).map(lambda u: ("usage",) + u),
)
steps = st.lists(st.tuples(step, st.sampled_from(FORMS), st.integers(0, 11999)), min_size=1, max_size=4)
small = gen.levels(max_tiles=2, max_props=1, max_ents=2, max_bprops=1)
high = st.sampled_from([b"\xe9", b"\x80\xff", b"caf\xe9 \xfc", b"\xc3\xa9", b"\x9d"])


def named(case):
    spec, hi = case
    if hi is not None:
        spec["vars"] = ("d", tuple((k, v) for k, v in spec["vars"][1] if k != "level_name") + (("level_name", ("s", hi)),))
    return spec


plan = st.one_of(st.just(encplan.PLAIN), encplan.plans)
SUBS = [
    Sub("sessions", lambda: st.tuples(st.tuples(small, st.one_of(st.none(), high)).map(named), plan, gen.struct(2), saves(), gen.byte_strings(40), steps), session, 200),
    Sub("help", lambda: st.tuples(st.sampled_from(FORMS), st.sampled_from([None] + sorted(MODULE)), st.integers(0, 11999)), helps, 12, thorough=40),
]
