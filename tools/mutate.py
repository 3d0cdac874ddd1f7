#!/usr/bin/env python3
"""Systematic mutants of the library that survive its own tests, tried on the checks.

usage: mutate.py gen OUT.json [file ...]       list mutants
       mutate.py tests IN.json OUT.json        keep those the existing tests let through
       mutate.py checks IN.json OUT.json       run the properties' quick checks on them
Works on bind-mounted scratch copies only; a development aid, no check uses it.
"""
import ast
import concurrent.futures as cf
import json
import os
import pathlib
import queue
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SRC = "src/orquestra/quantum/"
PY = "/opt/venv/bin/python"
PROPS = {
    "circuits/_circuit.py": "C08 C01 C06 C20 C05",
    "circuits/_gates.py": "C07 C06 C05 C01 C08 C20 C02",
    "circuits/_unitary_tools.py": "C01 C04",
    "circuits/_operations.py": "C06 C05",
    "circuits/_wavefunction_operations.py": "C06 C01 C04 C20",
    "circuits/_builtin_gates.py": "C02 C07 C06",
    "circuits/_matrices.py": "C02 C18",
    "circuits/_serde.py": "C05 C20",
    "circuits/_generators.py": "C08 C20",
    "circuits/_itertools.py": "C13 C20",
    "circuits/layouts.py": "C11",
    "circuits/symbolic/translations.py": "C19 C05",
    "circuits/symbolic/expressions.py": "C19",
    "circuits/symbolic/_sorting.py": "C19",
    "circuits/symbolic/sympy_expressions.py": "C19",
    "decompositions/_decomposition.py": "C18",
    "decompositions/_orquestra_decompositions.py": "C18",
    "distributions/_measurement_outcome_distribution.py": "C17 C13 C20 C04",
    "distributions/mmd.py": "C17 C20",
    "distributions/jensen_shannon_divergence.py": "C17",
    "distributions/clipped_negative_log_likelihood.py": "C17",
    "measurements/measurements.py": "C10 C11 C13 C04 C20",
    "measurements/parities.py": "C10 C11 C20",
    "measurements/expectation_values.py": "C11 C10 C15 C20",
    "operators/_pauli_operators.py": "C03 C11 C09 C16 C20",
    "operators/_io.py": "C11 C20",
    "operators/_utils.py": "C09 C20",
    "operators/_openfermion_utils/operator_utils.py": "C09 C20",
    "operators/_openfermion_utils/sparse_tools.py": "C09 C04 C20",
    "runners/symbolic_simulator.py": "C01 C04 C14",
    "runners/trackers.py": "C14 C20",
    "api/circuit_runner.py": "C14 C15 C20",
    "api/wavefunction_simulator.py": "C14 C04 C01 C15",
    "api/estimation.py": "C15",
    "estimation/_estimation.py": "C15 C20",
    "evolution.py": "C16 C20",
    "wavefunction.py": "C12 C04 C20",
    "utils.py": "C11 C13 C04 C10",
}

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*", "//"], ast.FloorDiv: ["/", "*"], ast.Mod: ["//"],
       ast.Pow: ["*"], ast.MatMult: ["*"], ast.BitOr: ["&"], ast.BitAnd: ["|"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitXor: ["|"]}
WRAPPERS = {"list", "tuple", "set", "dict", "sorted", "reversed", "abs", "copy", "deepcopy", "int", "float", "round", "ceil", "array", "asarray", "real", "conj", "conjugate", "transpose", "simplify"}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l))
        self.out = []
        self.skip = 0

    def pos(self, line, col):
        return self.starts[line - 1] + len(self.lines[line - 1].encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def src(self, n):
        a, b = self.span(n)
        return self.text[a:b]

    def put(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, f"L{n.lineno} {what}"))

    def between(self, left, right, new, what):
        a, b = self.span(left)[1], self.span(right)[0]
        seg = self.text[a:b]
        op = seg.strip().strip("()").strip()
        if not op or op not in seg:
            return
        i = a + seg.index(op)
        self.out.append((i, i + len(op), new, f"L{right.lineno} {what}: {op} -> {new}"))

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__") and "operators" not in self.file:
            return
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                continue
            self.visit(s)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for s in n.body:
            if not isinstance(s, ast.AnnAssign):
                self.visit(s)
            elif s.value:
                self.visit(s.value)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.put(n, "pass", "delete raise")

    def visit_Import(self, n): pass
    visit_ImportFrom = visit_Import

    def visit_Assert(self, n):
        self.put(n, "pass", "delete assert")

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            for new in CMP.get(type(op), []):
                self.between(left, right, new, "cmp")
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str) and not isinstance(n.left, ast.Name)):
            for new in BIN.get(type(n.op), []):
                self.between(n.left, n.right, new, "bin")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for a, b in zip(n.values, n.values[1:]):
            self.between(a, b, "or" if isinstance(n.op, ast.And) else "and", "bool")
        for v in n.values:
            self.put(v, "True" if isinstance(n.op, ast.And) else "False", "drop condition")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, "(" + self.src(n.operand) + ")", "drop unary")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        for new in BIN.get(type(n.op), []):
            self.between(n.target, n.value, new + "=", "aug")
        self.put(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.put(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Call,)):
            self.put(n, "pass", "delete")
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, "True", "if True")
        self.put(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, self.src(n.body), "ifexp body")
        self.put(n, self.src(n.orelse), "ifexp else")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.put(c, "True", "filter True")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "flip")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const+1")
            if v:
                self.put(n, str(v - 1), "const-1")
        elif isinstance(v, float):
            self.put(n, repr(v * 2 + 1e-3), "float")
        elif isinstance(v, complex):
            self.put(n, f"({-v!r})", "complex")

    def visit_JoinedStr(self, n): pass

    def visit_Slice(self, n):
        for part, tag in ((n.lower, "lower"), (n.upper, "upper"), (n.step, "step")):
            if part is not None:
                self.put(part, "", f"drop slice {tag}")
        self.generic_visit(n)

    def visit_Continue(self, n): self.put(n, "break", "break")
    def visit_Break(self, n): self.put(n, "continue", "continue")

    def visit_Call(self, n):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if name in WRAPPERS and len(n.args) == 1:
            self.put(n, "(" + self.src(n.args[0]) + ")", f"drop {name}()")
        elif isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            self.put(n, self.src(n.func.value), f"drop .{name}()")
        if name in ("any", "all"):
            self.put(n.func, "all" if name == "any" else "any", "any/all")
        if name in ("min", "max"):
            self.put(n.func, "max" if name == "min" else "min", "min/max")
        if name == "range" and len(n.args) >= 1:
            self.put(n.args[-1 if len(n.args) < 3 else 1], self.src(n.args[-1 if len(n.args) < 3 else 1]) + " - 1", "range-1")
        plain = [a for a in n.args if not isinstance(a, ast.Starred)]
        for a, b in zip(plain, plain[1:]):
            if self.src(a) != self.src(b) and not isinstance(a, ast.Constant):
                x, y = self.span(a), self.span(b)
                self.out.append((x[0], y[1], self.src(b) + self.text[x[1]:y[0]] + self.src(a), f"L{a.lineno} swap args"))
        for k in n.keywords:
            if k.arg and k.value:
                a = self.pos(k.lineno, k.col_offset)
                b = self.span(k.value)[1]
                rest = self.text[b:]
                m = len(rest) - len(rest.lstrip())
                if rest[m:m + 1] == ",":
                    b += m + 1
                self.out.append((a, b, "", f"L{k.lineno} drop keyword {k.arg}"))
        self.visit(n.func)
        for a in n.args:
            self.visit(a)
        for k in n.keywords:
            self.visit(k.value)

    def visit_Attribute(self, n):
        if n.attr in ("T", "real", "imag", "dagger"):
            self.put(n, self.src(n.value), f"drop .{n.attr}")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.generic_visit(n)


def gen(out, files):
    res = []
    for f in files or PROPS:
        text = pathlib.Path("/repo", SRC, f).read_text()
        g = Gen(text)
        g.file = f
        g.visit(ast.parse(text))
        seen = set()
        for a, b, new, what in g.out:
            t = text[:a] + new + text[b:]
            if t in seen or text[a:b] == new:
                continue
            seen.add(t)
            try:
                if ast.dump(ast.parse(t)) == ast.dump(ast.parse(text)):
                    continue
            except SyntaxError:
                continue
            res.append(dict(file=f, a=a, b=b, new=new, what=what, old=text[a:b][:60]))
    json.dump(res, open(out, "w"))
    print(len(res), "mutants")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def related(f):
    stem = pathlib.Path(f).stem
    base = "/repo/tests/orquestra/quantum/" + str(pathlib.Path(f).parent)
    names = [f"{stem}_test.py", f"{stem.lstrip('_')}_test.py"]
    here = [f"{base}/{n}" for n in names if os.path.exists(f"{base}/{n}")]
    return " ".join(here + ([base] if base.rstrip("./") != "/repo/tests/orquestra/quantum" and os.path.isdir(base) else []) + ["/repo/tests"])


def tests(src, out, workers):
    muts = json.load(open(src))
    copies = queue.Queue()
    for i in range(workers):
        d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/w")
        sh(f"cp -a /repo/. {d}/")
        copies.put(d)
    done = []

    def one(m):
        d = copies.get()
        p = pathlib.Path(d, SRC, m["file"])
        text = p.read_text()
        w = tempfile.mkdtemp(prefix="cwd-", dir="/tmp/w")
        try:
            p.write_text(text[:m["a"]] + m["new"] + text[m["b"]:])
            cmd = (f"mount --bind {d} /repo && cd {w} && export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1; "
                   f"timeout 150 {PY} -m pytest -x -q -p no:cacheprovider -p no:xdist --disable-warnings --timeout=60 -c /repo/pyproject.toml --rootdir /repo {related(m['file'])}")
            r = sh(f"unshare -Urm sh -c '{cmd}'")
            m["survived"] = r.returncode == 0
        finally:
            p.write_text(text)
            shutil.rmtree(w)
            copies.put(d)
        done.append(m)
        if m["survived"]:
            print(m["file"], m["what"], repr(m["old"]), "->", repr(m["new"]), flush=True)
            json.dump([x for x in done if x["survived"]], open(out, "w"))
        return m

    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, muts))
    print(len(done), "run,", sum(m["survived"] for m in done), "survived", flush=True)
    while not copies.empty():
        shutil.rmtree(copies.get())


def checks(src, out, extra):
    muts = json.load(open(src))
    old = {}
    if os.path.exists(out):
        old = {(m["file"], m["a"], m["b"], m["new"]): m for m in json.load(open(out))}
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/w")
    sh(f"cp -a /repo/. {d}/")
    res = list(old.values())
    for m in muts:
        if (m["file"], m["a"], m["b"], m["new"]) in old:
            continue
        p = pathlib.Path(d, SRC, m["file"])
        text = p.read_text()
        m["caught"] = None
        try:
            p.write_text(text[:m["a"]] + m["new"] + text[m["b"]:])
            codes = {}
            for prop in PROPS[m["file"]].split():
                r = sh(f"unshare -Urm sh -c 'mount --bind {d} /repo && cd /repo && timeout 300 python3 {VERIF}/check.py {prop} --tier quick --no-evidence {extra}'")
                codes[prop] = r.returncode
                if r.returncode == 1:
                    m["caught"] = prop
                    break
            m["codes"] = codes
        finally:
            p.write_text(text)
        res.append(m)
        json.dump(res, open(out, "w"))
        print("caught" if m["caught"] else "MISSED", m["caught"] or m["codes"], m["file"], m["what"], repr(m["old"]), "->", repr(m["new"]), flush=True)
    shutil.rmtree(d)


mode, *a = sys.argv[1:]
if mode == "gen":
    gen(a[0], a[1:])
elif mode == "tests":
    tests(a[0], a[1], int(a[2]) if a[2:] else 6)
else:
    checks(a[0], a[1], " ".join(a[2:]))
