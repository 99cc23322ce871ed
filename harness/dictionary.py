"""Constants mined from the current dustmaker sources, used only to bias generators.

Constants absent from the committed baseline (harness/baseline_constants.json) are "novel" and get a
higher weight: special cases on particular values are reached quickly wherever they appear.
"""
import ast
import json
import operator
import os

from .engine import PKG, VERIF

_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.FloorDiv: operator.floordiv, ast.LShift: operator.lshift, ast.BitOr: operator.or_,
        ast.Pow: operator.pow, ast.Mod: operator.mod, ast.Div: operator.truediv,
        ast.BitXor: operator.xor, ast.BitAnd: operator.and_, ast.RShift: operator.rshift}


def _const(node):
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = _const(node.operand)
        return -v if isinstance(v, (int, float)) else None
    if isinstance(node, ast.BinOp) and type(node.op) in _OPS:
        a, b = _const(node.left), _const(node.right)
        if type(a) in (int, float) and type(b) in (int, float):
            if isinstance(node.op, (ast.Pow, ast.LShift)) and (abs(b) > 64 or abs(a) > 1 << 32):
                return None
            try:
                return _OPS[type(node.op)](a, b)
            except Exception:
                return None
    return None


def mine(root=PKG):
    ints, floats, strs, byts = set(), set(), set(), set()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except Exception:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    docs.add(id(n.value))
            for n in ast.walk(tree):
                if not isinstance(n, ast.expr) or id(n) in docs:
                    continue
                v = _const(n)
                if type(v) is int and abs(v) <= 1 << 40:
                    ints.add(v)
                elif type(v) is float and v == v and abs(v) < 1e12:
                    floats.add(v)
                elif type(v) is str and len(v) <= 64:
                    strs.add(v)
                elif type(v) is bytes and len(v) <= 64:
                    byts.add(v)
    return ints, floats, strs, byts


BASELINE = os.path.join(VERIF, "harness", "baseline_constants.json")

INTS, FLOATS, STRS, BYTES = mine()
try:
    with open(BASELINE) as _f:
        _b = json.load(_f)
    NOVEL_INTS = sorted(INTS - set(_b["ints"]))
    NOVEL_FLOATS = sorted(FLOATS - set(_b["floats"]))
    NOVEL_STRS = sorted(STRS - set(_b["strs"]))
    NOVEL_BYTES = sorted(BYTES - {s.encode("latin1") for s in _b["bytes"]})
except FileNotFoundError:
    NOVEL_INTS, NOVEL_FLOATS, NOVEL_STRS, NOVEL_BYTES = [], [], [], []
INTS, FLOATS, STRS, BYTES = sorted(INTS), sorted(FLOATS), sorted(STRS), sorted(BYTES)

ALPHA6 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"


def is6(s):
    return len(s) <= 63 and all(c in ALPHA6 for c in s)


KEYS6 = sorted(s for s in STRS if s and is6(s))
NOVEL_KEYS6 = sorted(s for s in NOVEL_STRS if is6(s))


def around(vals, lo, hi):
    out = set()
    for v in vals:
        for d in (-1, 0, 1):
            if lo <= v + d <= hi:
                out.add(int(v) + d)
    return sorted(out)


def save_baseline():
    with open(BASELINE, "w") as f:
        json.dump({"ints": INTS, "floats": FLOATS, "strs": STRS,
                   "bytes": [b.decode("latin1") for b in BYTES]}, f, indent=0)


if __name__ == "__main__":
    save_baseline()
