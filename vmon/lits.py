"""Dictionary of literals found in the sources under test.

As a fuzzer's dictionary does, it only biases generators towards boundary values
(thresholds, sizes, angles, names) present in the current tree; verdicts never
depend on it.
"""
import ast
import glob
import os

from . import core

INTS = []
FLOATS = []
STRINGS = []


def _fold(node):
    try:
        return eval(  # constants only: no names are available
            compile(ast.Expression(node), "<lit>", "eval"), {"__builtins__": {}}
        )
    except Exception:
        return None


def harvest(mod=None):
    ints, floats, strings = set(), set(), set()
    pats = ["*.py", "*/*.py", "*/*/*.py"]
    root = os.path.join(core.REPO, "src/orquestra/quantum")
    for pat in pats:
        for path in glob.glob(os.path.join(root, pat)):
            rel = os.path.relpath(path, root)
            if rel.startswith("testing") or "contract" in rel:
                continue
            try:
                with open(path) as f:
                    tree = ast.parse(f.read())
            except Exception:
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                v = None
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                elif isinstance(node, (ast.BinOp, ast.UnaryOp)):
                    v = _fold(node)
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, int) and abs(v) <= 1 << 70:
                    ints.add(v)
                elif isinstance(v, float) and v == v and abs(v) < 1e300:
                    floats.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 24:
                    strings.add(v)
    near = set()
    for i in ints:
        near |= {i - 1, i, i + 1}
    INTS[:] = sorted(near)
    FLOATS[:] = sorted(floats)
    STRINGS[:] = sorted(strings)


def ints_in(lo, hi):
    return [i for i in INTS if lo <= i <= hi]
