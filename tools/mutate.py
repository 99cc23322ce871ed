#!/usr/bin/env python3
"""Mutation measurement: small random changes to the sources of a scratch copy of
/repo that the repository's own tests accept, run against the checks that cover
the changed file; prints the survivors.

usage: mutate.py COUNT SEED [file-substring]      (env MUT_PAR, MUT_SCALE)
"""
import ast
import concurrent.futures as cf
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

REPO, VERIF = "/repo", "/verif"
CHECKS = {
    "bitio.py": "C08 C31 C07 C12",
    "dfreader.py": "C03 C06 C11 C09 C05 C12 C31 C07 C01",
    "dfwriter.py": "C02 C01 C06 C11 C09 C30 C05 C07 C31 C04 C10",
    "level.py": "C14 C16 C17 C18 C19 C20 C21 C26 C15 C33 C01 C35 C36",
    "tile.py": "C13 C16 C32 C28 C01 C02 C14 C18 C36",
    "entity.py": "C26 C14 C20 C30 C33 C01 C15 C16 C28 C36",
    "transform.py": "C29 C14",
    "prop.py": "C14 C15 C01",
    "variable.py": "C27 C28 C07 C33 C26 C06 C36",
    "replay.py": "C10 C11 C33 C36",
    "cmd/variables.py": "C22 C23 C34",
    "cmd/thumbnail.py": "C23 C34",
    "cmd/transform.py": "C24 C34",
    "cmd/save_convert.py": "C25 C34",
    "cmd/common.py": "C34",
    "cmd/main.py": "C34",
}
FIRST = {"calculate_edge_visibility": "C17", "calculate_edge_caps": "C18", "upscale": "C16", "remap_ids": "C20", "merge": "C21",
         "calculate_max_id": "C19", "add_prop": "C19", "add_entity": "C19", "transform": "C14", "write_replay": "C11",
         "read_replay": "C11", "write_variable": "C06", "read_variable": "C06", "write_float": "C09", "read_float": "C09",
         "write_6bit_str": "C09", "read_6bit_str": "C09", "_pack_tile_data": "C02", "_unpack_tile_data": "C03"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.LShift: [">>"],
       ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["|"]}


def sites(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []
    docs = set()

    def walk(node, fn, ann=False):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = node.name
        body = getattr(node, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            docs.add(id(body[0].value))
            docs.add(id(body[0]))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            l, r = pos(node.left)[1], pos(node.comparators[0])[0]
            for o in CMP.get(type(node.ops[0]), []):
                old = b[l:r].decode()
                m = re.search(r"(not\s+in|is\s+not|<=|>=|==|!=|<|>|\bin\b|\bis\b)", old)
                if m:
                    out.append((l + m.start(), l + m.end(), o, fn, node.lineno))
        if isinstance(node, ast.BinOp):
            l, r = pos(node.left)[1], pos(node.right)[0]
            for o in BIN.get(type(node.op), []):
                m = re.search(r"(//|<<|>>|[-+*/%&|^])", b[l:r].decode())
                if m:
                    out.append((l + m.start(), l + m.end(), o, fn, node.lineno))
        if isinstance(node, ast.BoolOp):
            l, r = pos(node.values[0])[1], pos(node.values[1])[0]
            m = re.search(r"\b(and|or)\b", b[l:r].decode())
            if m:
                out.append((l + m.start(), l + m.end(), "or" if m.group(1) == "and" else "and", fn, node.lineno))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            s, e = pos(node)
            out.append((s, e, "(" + b[slice(*pos(node.operand))].decode() + ")", fn, node.lineno))
        if isinstance(node, ast.Constant) and id(node) not in docs and not ann:
            s, e = pos(node)
            v = node.value
            if isinstance(v, bool):
                out.append((s, e, str(not v), fn, node.lineno))
            elif isinstance(v, int):
                out.append((s, e, str(v + 1), fn, node.lineno))
                out.append((s, e, "(%d)" % (v - 1), fn, node.lineno))
            elif isinstance(v, float):
                out.append((s, e, repr(v + 1.0), fn, node.lineno))
            elif isinstance(v, (bytes, str)) and v and b[s:s + 1] in (b'"', b"b"):
                out.append((s, e, repr(v[:-1]), fn, node.lineno))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            s, e = pos(node.test)
            for o in ("True", "False"):
                if not (isinstance(node, ast.While) and o == "True"):
                    out.append((s, e, o, fn, node.lineno))
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete)) and id(node) not in docs and fn:
            s, e = pos(node)
            out.append((s, e, "pass", fn, node.lineno))
        for f, ch in ast.iter_fields(node):
            for c in ch if isinstance(ch, list) else [ch]:
                if isinstance(c, ast.AST):
                    if isinstance(node, ast.Assert) and f == "msg":
                        continue
                    walk(c, fn, ann or f in ("annotation", "returns") or isinstance(node, ast.Raise))

    walk(tree, "")
    return b, out


def one(job):
    n, fn, (s, e, new, func, line), b = job
    desc = "%s:%d (%s) %r -> %r" % (fn, line, func, b[s:e].decode()[:60], new[:60])
    tmp = tempfile.mkdtemp(prefix="mut.")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git"))
        mut = b[:s] + new.encode() + b[e:]
        try:
            compile(mut, fn, "exec")
        except SyntaxError:
            return n, "SYNTAX", desc
        open(os.path.join(repo, "dustmaker", fn), "wb").write(mut)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=repo, VERIF_OUT=os.path.join(tmp, "out"), VERIF_JOBS="1",
                   VERIF_SCALE=os.environ.get("MUT_SCALE", "0.12"), VERIF_SEED="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            if r.returncode:
                return n, "tests", desc
        except subprocess.TimeoutExpired:
            return n, "tests", desc
        cs = CHECKS[fn].split()
        if FIRST.get(func) in cs:
            cs.remove(FIRST[func])
            cs.insert(0, FIRST[func])
        for c in cs:
            try:
                r = subprocess.run([VERIF + "/run.sh", c, "quick"], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                return n, "TIMEOUT " + c, desc
            if r.returncode == 1:
                return n, "killed " + c, desc
            if r.returncode:
                return n, "BROKEN %s %s" % (c, r.stdout.decode()[-300:]), desc
        return n, "SURVIVED", desc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    pool = []
    for fn in CHECKS:
        if only in fn:
            b, ss = sites(open(os.path.join(REPO, "dustmaker", fn)).read())
            pool += [(fn, s, b) for s in ss]
    random.Random(seed).shuffle(pool)
    print("%d sites" % len(pool), flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "8"))) as ex:
        futs = [ex.submit(one, j) for j in [(i, *p) for i, p in enumerate(pool[:count])]]
        for n, st, desc in (f.result() for f in cf.as_completed(futs)):
            print("%4d %-12s %s" % (n, st, desc), flush=True)


if __name__ == "__main__":
    main()
