#!/usr/bin/env python3
"""Authoring tool for /verif/seeded: turns the specs in bugs*.py into
patch.diff/demo.sh/demo.py/meta.json, confirming each one in a scratch copy of
/repo (edits only original lines, stable tests pass, demo distinguishes), and
reports whether the property's own check catches it.

usage: plant.py [ids...]   (all specs without a seeded folder when none given)
       plant.py --recheck [ids...]   (only re-run the checks on seeded patches)
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = "/verif"
REPO = "/repo"
BASE = "8c7a9da"
HERE = os.path.dirname(os.path.abspath(__file__))

DEMO_SH = """#!/bin/bash
# Run with the current directory at the repository's root.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec timeout 120 python3 "$(dirname "$0")/demo.py"
"""


def specs():
    out = {}
    for fn in sorted(os.listdir(HERE)):
        if not re.fullmatch(r"bugs\w*\.py", fn):
            continue
        sp = importlib.util.spec_from_file_location(fn[:-3], os.path.join(HERE, fn))
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
        for bug in mod.BUGS:
            assert bug["id"] not in out, bug["id"]
            out[bug["id"]] = bug
    return out


def sh(cmd, cwd, timeout=1200, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy_repo(tmp):
    dst = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", REPO, dst])
    return dst


def original_lines(path):
    rc, out = sh(["git", "blame", "-s", "-l", "--root", path], REPO)
    base = subprocess.check_output(["git", "rev-parse", BASE], cwd=REPO, text=True).strip()
    return [ln.startswith(base) for ln in out.splitlines()]


def check(prop, dst, tmp):
    env = {"VERIF_REPO": dst, "VERIF_JOBS": os.environ.get("PLANT_JOBS", "8"),
           "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
           "VERIF_OUT": tmp}
    rc, out = sh(["bash", VERIF + "/run.sh", prop, "quick"], VERIF, env=env)
    hit = f"VIOLATION property={prop}" in out
    return rc, hit, out


def plant(bug):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        dst = copy_repo(tmp)
        for fn, old, new in bug["edits"]:
            p = os.path.join(dst, fn)
            txt = open(p).read()
            if txt.count(old) != 1:
                return bug["id"], "BAD", f"old text occurs {txt.count(old)} times in {fn}"
            # some changed line must be original
            open(p, "w").write(txt.replace(old, new))
        rc, diff = sh(["git", "diff"], dst)
        # every hunk must remove an original line
        cur, orig, ln, removed = None, None, 0, []
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                orig = original_lines(cur)
            elif line.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", line).group(1))
            elif cur and line.startswith("-"):
                removed.append(orig[ln - 1]); ln += 1
            elif cur and line.startswith(" "):
                ln += 1
        if not any(removed):
            return bug["id"], "BAD", f"touches no original line ({removed})"
        note = "" if all(removed) else " [some removed lines are from fix commits]"
        d = os.path.join(tmp, "seed")
        os.mkdir(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["prop"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh(["bash", d + "/demo.sh"], REPO)
        if rc != 0:
            return bug["id"], "BAD", "demo fails on the unchanged tree:\n" + out[-1500:]
        rc, out = sh(["bash", d + "/demo.sh"], dst)
        if rc == 0:
            return bug["id"], "BAD", "demo passes with the patch"
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                      "tests"], dst, env={"PYTHONPATH": dst, "PYTHONDONTWRITEBYTECODE": "1"})
        m = re.search(r"(\d+) passed", out)
        if rc != 0 or not m or int(m.group(1)) < 20:
            return bug["id"], "BAD", "tests fail with the patch:\n" + out[-1500:]
        sd = os.path.join(VERIF, "seeded", bug["id"])
        shutil.rmtree(sd, ignore_errors=True)
        shutil.copytree(d, sd)
        rc, hit, out = check(bug["prop"], dst, tmp)
        if rc == 1 and hit:
            return bug["id"], "CAUGHT", note
        return bug["id"], "MISSED", f"rc={rc}{note} " + out[-300:]
    finally:
        shutil.rmtree(tmp)


def recheck(name):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        dst = copy_repo(tmp)
        sd = os.path.join(VERIF, "seeded", name)
        rc, out = sh(["git", "apply", sd + "/patch.diff"], dst)
        if rc:
            return name, "BAD", out
        prop = json.load(open(sd + "/meta.json"))["property"]
        rc, hit, out = check(prop, dst, tmp)
        return name, "CAUGHT" if rc == 1 and hit else "MISSED", "" if hit else f"rc={rc} {out[-300:]}"
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    if args[:1] == ["--recheck"]:
        names = args[1:] or sorted(os.listdir(VERIF + "/seeded"))
        names = [n for n in names if not n.startswith(".")]
        jobs = [(recheck, n) for n in names]
    else:
        sp = specs()
        names = args or [n for n in sp if not os.path.exists(f"{VERIF}/seeded/{n}")]
        jobs = [(plant, sp[n]) for n in names]
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_PAR", "2"))) as ex:
        for fut in cf.as_completed([ex.submit(f, a) for f, a in jobs]):
            name, verdict, info = fut.result()
            print(f"{name:8} {verdict:7} {info}", flush=True)


if __name__ == "__main__":
    main()
