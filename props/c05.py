"""C05 - circuits survive JSON serialisation unchanged in structure and meaning."""
import io
import json
import os
import pathlib

import numpy as np
import sympy

from orquestra.quantum import circuits as C

from vmon import gen, lits, ref

PROPERTY = "C05"
RULE = (
    "random circuits of every built-in gate, custom gates (numeric, exact, parametric, several "
    "per circuit, shared, nested in wrappers), wrapper chains up to depth five (controlled, "
    "dagger, power with integer and float exponents, exponential, also built directly from the "
    "wrapper classes), Python/numpy/sympy numbers, bare, indexed and sympy-name-shadowing "
    "symbols, expressions mixing constants with symbols of the same name, idle qubits and empty "
    "circuits; sent through JSON text and through files (paths, open files), single and as "
    "lists. Oracles: own structural comparison of every gate layer, exact or 1e-12 parameter "
    "comparison, library equality when parameters are exactly representable, free symbols, and "
    "matrices at random assignments. Identified by the serialised text."
)
ASSUMPTIONS = [
    "symbol names are identifiers other than keywords, or name[index]; custom gate names avoid built-in and marker names",
    "expressions are compared by value at random points (1e-11 of the magnitude of their parts)",
]

NAMES = gen.SYMBOL_NAMES + [
    "S", "E", "I", "N", "O", "Q", "pi", "beta", "zeta", "gamma", "Gamma", "re", "im", "cos", "sin", "exp",
    "sqrt", "log", "Symbol", "Integer", "Float", "Rational", "Add", "Mul", "oo", "nan", "zoo", "GoldenRatio",
    "test", "init_session", "x_1", "x__1", "X", "CNOT", "RX", "i", "j", "e", "e1", "E1", "l", "_x", "__y",
    "x[0]", "x[1]", "x[3]", "x[10]", "x[12]", "theta[0]", "theta[1]", "theta[10]", "y[2]", "pi[1]", "I[0]",
    "θ", "α_1", "_symbol_0_", "_symbol_1_", "symbol", "expr", "name", "locals", "True_", "var_0", "abs", "sum",
    "max", "min", "Abs", "Max", "conjugate", "sign", "Matrix", "Dagger", "Control", "Exponential", "Power",
]  # fmt: skip


def _symbols(rng, k):
    r = rng.random()
    if r < 0.35:
        pool = gen.SYMBOL_NAMES
    elif r < 0.5:
        pool = ["x", "x[0]", "x[1]", "x[10]", "x_1", "xx", "x1", "x[11]", "y", "x2"]
    else:
        pool = NAMES
    return [sympy.Symbol(s) for s in rng.sample(pool, min(k, len(pool)))]


def _number(rng):
    r = rng.random()
    if r < 0.3:
        return float(gen.angle(rng))
    if r < 0.36:
        return rng.choice([1e-300, 5e-324, 1e300, 0.1 + 0.2, 1 / 3, 1e22, 1e16, 123456789012345678.0,
                           2**53 + 2.0, 1e-5, 1e-7, -0.0, 1.0000000000000002, 2.718281828459045, 3.141592653589793])
    if r < 0.5:
        return rng.choice([rng.randint(-10, 10), rng.randint(-(10**18), 10**18), 10**25, 0, 1])
    if r < 0.55:
        return np.float64(gen.angle(rng))
    if r < 0.65:
        return sympy.Float(gen.angle(rng))
    if r < 0.85:
        return sympy.pi * sympy.Rational(rng.randint(-40, 40), rng.choice([1, 2, 3, 5, 7, 64]))
    return rng.choice([sympy.Rational(rng.randint(-99, 99), rng.randint(1, 99)), sympy.sqrt(2) / 3, sympy.E,
                       sympy.E * sympy.pi, sympy.Integer(rng.randint(-5, 5)), sympy.pi**2, sympy.exp(2) - 1,
                       sympy.cos(1), sympy.sqrt(sympy.pi)])


def _expr(rng, syms):
    r = rng.random()
    if r < 0.3:
        return rng.choice(syms)
    if r < 0.65:
        return gen.expression(rng, syms, rng.choice([1, 1, 2, 2, 3]))
    s = rng.choice(syms)
    t = rng.choice(syms)
    return rng.choice([
        s * gen.angle(rng), s + gen.angle(rng), gen.angle(rng) * s + gen.angle(rng) * t,
        s * sympy.pi + t, s - sympy.E * t, s / 3 - t / 7, s / (t**2 + 1), sympy.sqrt(s**2 + t**2 + 1),
        sympy.exp(-(s**2)) * t, -s, -(s + t), 2 * s, s * t * 0.5, sympy.cos(s) ** 2 + sympy.E, s ** sympy.Rational(2) + sympy.pi,
        sympy.cos(s / 2) * sympy.sin(t), 1e-9 * s, 1e12 * s + t, s * (t + 1.5), sympy.tan(s) + 1, s**3 - t ** 2 / 2,
        sympy.I * sympy.I * s, s + 12345.678901234567, (s + 1) / (sympy.pi + t ** 2), abs(s) + t,
    ])


def _defs(ctx, rng):
    """A few custom definitions of distinct names."""
    out = []
    names = rng.sample(["custom", "custom_2", "my gate", "gate_definition", "u", "v9", "G[1]", "math", "sympy",
                        "numpy", "np", "c-X", "make_parametric_gate_prototype", "Xx", "x", "name-with-dash", "θgate",
                        "Power", "power", "ControlX", "builtin", "GatePrototype", "partial", "_matrices", "_gates",
                        "Dict", "Union", "Callable", "__name__", "__doc__"], 3)
    for name in names[: rng.randint(0, 3)]:
        r = rng.random()
        if r < 0.35:
            out.append((gen.custom_numeric(ctx, rng.choice([1, 1, 2, 3]), name), 0))
        elif r < 0.55:
            out.append((gen.custom_exact(ctx, name), 0))
        else:
            d, n_params, _ = gen.custom_parametric(ctx, name, names=NAMES if rng.random() < 0.5 else None)
            out.append((d, n_params))
    return out


EXPONENTS = [2, 3, -1, 0, 1, 0.5, -0.5, 1 / 3, 0.25, 1e-05, 2.0, -2.5, 1e22, 7, 0.1 + 0.2, 100, -3]


class _Chain:
    def __init__(self, gate, exact, tame):
        self.gate, self.exact, self.tame = gate, exact, tame


def _gate(ctx, rng, defs, max_qubits, depth, numeric=None):
    exact = [True]
    numeric = rng.random() < 0.45 if numeric is None else numeric
    syms = _symbols(rng, rng.randint(1, 3))

    def param():
        if numeric or rng.random() < 0.2:
            p = _number(rng)
            if isinstance(p, sympy.Basic) and p.has(sympy.Float):
                exact[0] = False
        else:
            p = _expr(rng, syms)
            if p.has(sympy.Float):
                exact[0] = False
        return p

    small = [d for d in defs if d[0].matrix.shape[0] <= 2**max_qubits]
    if small and rng.random() < 0.45:
        d, n_params = rng.choice(small)
        if rng.random() < 0.3:  # an equal, but distinct definition object
            d = C.CustomGateDefinition(d.gate_name, sympy.Matrix(d.matrix), tuple(d.params_ordering))
        g = d(*[param() for _ in range(n_params)])
    else:
        names = [n for n, (_, q) in ref.BUILTINS.items() if q <= max_qubits]
        g = gen.make_builtin(rng, rng.choice(names), param)
    symbolic = bool(list(g.free_symbols))
    hard, tame = 0, g.num_qubits <= 2
    for _ in range(rng.randint(0, depth)):
        direct = rng.random() < 0.25
        m = rng.choice(["ctrl", "dag", "dag", "pow", "exp"])
        if m == "ctrl" and g.num_qubits < max_qubits:
            k = rng.randint(1, max_qubits - g.num_qubits)
            g = C.ControlledGate(g, k) if direct else g.controlled(k)
        elif m == "dag":
            g = C.Dagger(g) if direct else g.dagger
        elif m == "pow" and not symbolic:
            e = rng.choice(EXPONENTS)
            g = type(C.X.power(2))(g, e) if direct else g.power(e)
            tame = tame and not hard and isinstance(e, int) and abs(e) <= 3
        elif m == "exp" and not symbolic:
            g = C.Exponential(g) if direct else g.exp
            hard += 1
            tame = False
    return _Chain(g, exact[0], tame)


def _circuit(ctx, rng):
    defs = _defs(ctx, rng)
    n = rng.choice([1, 2, 3, 4, 5])
    big = rng.random() < 0.15
    ops, chains = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        if chains and rng.random() < 0.15:
            ch = rng.choice(chains)
        else:
            ch = _gate(ctx, rng, defs, n, rng.choice([0, 1, 2, 3, 5]))
        qs = gen.qubit_tuple(rng, ch.gate.num_qubits, n)
        if big:
            off = rng.choice([8, 9, 10, 99, 100, 12345])
            qs = tuple(q + off for q in qs)
        if rng.random() < 0.1:
            qs = tuple(np.int64(q) for q in qs)
        chains.append(ch)
        ops.append(ch.gate(*qs))
    width = None if rng.random() < 0.5 else max([n] + [int(max(op.qubit_indices)) + 1 for op in ops]) + rng.choice([0, 1, 7])
    return C.Circuit(ops, n_qubits=width), chains


# -- own structural comparison -------------------------------------------------


def _scale(e, values):
    if isinstance(e, sympy.Basic) and e.args:
        return max([_scale(a, values) for a in e.args] + [abs(ref.eval_expr(e, values))])
    return abs(complex(values[e])) if isinstance(e, sympy.Symbol) else abs(complex(e))


def _param_equal(ctx, new, old, label, **w):
    if isinstance(old, (int, float)) and not isinstance(old, sympy.Basic):
        n = sympy.sympify(new)
        ctx.check(not n.free_symbols, f"{label}: number became symbolic", new=new, old=old, **w)
        if isinstance(old, float):
            ctx.check(float(n) == float(old), f"{label}: number changed", new=new, old=old, **w)
        else:
            ctx.check(n == old, f"{label}: integer changed", new=new, old=old, **w)
        return
    if isinstance(old, sympy.Symbol):
        ctx.check(new == old and isinstance(new, sympy.Symbol), f"{label}: symbol changed", new=new, old=old, **w)
        return
    old = sympy.sympify(old)
    ctx.check(isinstance(new, (sympy.Basic, int, float)), f"{label}: not an expression", new=new, **w)
    new_e = sympy.sympify(new)
    ctx.check(new_e.free_symbols == old.free_symbols, f"{label}: symbols changed", new=new, old=old, **w)
    if not old.has(sympy.Float) and new_e == old:
        return
    if isinstance(old, sympy.Float):
        o, x = float(old), float(new_e)
        ctx.check(abs(o - x) <= 1e-12 * abs(o), f"{label}: float changed", new=new, old=old, **w)
        return
    for _ in range(3):
        values = {s: ctx.rng.uniform(0.2, 2.0) for s in sorted(old.free_symbols, key=str)}
        a, b = ref.eval_expr(new_e, values), ref.eval_expr(old, values)
        tol = 1e-11 * max(1e-300, _scale(old, values))
        if not (abs(a - b) <= tol):
            if not (np.isfinite(a) or np.isfinite(b)):
                continue
            ctx.fail(f"{label}: expression changed value", new=new, old=old, values=values, got=a, want=b, **w)
        ctx.ev("expression_values")


def _matrix_equal(ctx, new, old, label, **w):
    ctx.check(new.shape == old.shape, f"{label}: shape", new=new.shape, old=old.shape, **w)
    for a, b in zip(list(new), list(old)):
        _param_equal(ctx, a, b, label, **w)


def _gate_equal(ctx, new, old, label, depth=0, **w):
    ctx.check(type(new) is type(old), f"{label}: gate kind changed at layer {depth}",
              new=type(new).__name__, old=type(old).__name__, **w)
    ctx.check(new.num_qubits == old.num_qubits, f"{label}: arity", new=new, old=old, **w)
    ctx.check(len(new.params) == len(old.params), f"{label}: number of params", new=new, old=old, **w)
    ctx.ev("layers_compared")
    if hasattr(old, "wrapped_gate"):
        for attr in ("num_control_qubits", "exponent"):
            if hasattr(old, attr):
                a, b = getattr(new, attr), getattr(old, attr)
                ctx.check(a == b and float(a) == float(b), f"{label}: {attr} changed", new=a, old=b, **w)
        _gate_equal(ctx, new.wrapped_gate, old.wrapped_gate, label, depth + 1, **w)
        return
    ctx.check(new.name == old.name, f"{label}: name", new=new.name, old=old.name, **w)
    for a, b in zip(new.params, old.params):
        _param_equal(ctx, a, b, f"{label}: parameter of {old.name}", **w)
    da, db = _definition(new), _definition(old)
    ctx.check((da is None) == (db is None), f"{label}: custom became built-in or vice versa", new=new, old=old, **w)
    if db is not None:
        _def_equal(ctx, da, db, label, **w)
    else:
        ctx.check(bool(new.is_hermitian) == bool(old.is_hermitian), f"{label}: hermitian flag", new=new, old=old, **w)


def _definition(g):
    return getattr(getattr(g, "matrix_factory", None), "gate_definition", None)


def _def_equal(ctx, da, db, label, **w):
    ctx.check(da.gate_name == db.gate_name, f"{label}: definition name", new=da.gate_name, old=db.gate_name, **w)
    ctx.check(tuple(da.params_ordering) == tuple(db.params_ordering), f"{label}: order of definition parameters",
              new=da.params_ordering, old=db.params_ordering, **w)
    _matrix_equal(ctx, da.matrix, db.matrix, f"{label}: definition matrix of {db.gate_name}", **w)
    ctx.ev("definitions_compared")


def _compare(ctx, new, old, chains, label, matrices=True):
    w = dict(circuit=old)
    ctx.check(isinstance(new, C.Circuit), f"{label}: not a circuit", new=new)
    ctx.check(new.n_qubits == old.n_qubits, f"{label}: width", new=new.n_qubits, old=old.n_qubits, **w)
    ctx.check(len(new.operations) == len(old.operations), f"{label}: number of operations", **w)
    for i, (a, b) in enumerate(zip(new.operations, old.operations)):
        ctx.check(tuple(a.qubit_indices) == tuple(b.qubit_indices), f"{label}: qubits of operation {i}",
                  new=a.qubit_indices, old=b.qubit_indices, **w)
        _gate_equal(ctx, a.gate, b.gate, f"{label}: operation {i}", **w)
    ctx.check(set(new.free_symbols) == set(old.free_symbols), f"{label}: free symbols",
              new=new.free_symbols, old=old.free_symbols, **w)
    da = {d.gate_name: d for d in new.collect_custom_gate_definitions()}
    db = {d.gate_name: d for d in old.collect_custom_gate_definitions()}
    ctx.check(set(da) == set(db), f"{label}: custom definitions", new=set(da), old=set(db), **w)
    used = {d.gate_name for op in old.operations for d in [_definition(_root(op.gate))] if d is not None}
    ctx.check(set(db) == used, "collected definitions are not those used", got=set(db), want=used, **w)
    for k in db:
        _def_equal(ctx, da[k], db[k], label, **w)
    if all(ch.exact for ch in chains) and all(_exact_def(d) for d in db.values()):
        ctx.check(new == old, f"{label}: exactly representable circuits compare different", new=new, **w)
        ctx.check(old == new, f"{label}: exactly representable circuits compare different (swapped)", new=new, **w)
        ctx.ev("library_equalities")
    if not matrices:
        return
    values = {s: ctx.rng.uniform(0.2, 2.5) for s in old.free_symbols}
    for i, (a, b, ch) in enumerate(zip(new.operations, old.operations, chains)):
        if not ch.tame or b.gate.num_qubits > 4:
            continue
        big = any(not isinstance(p, sympy.Basic) and abs(p) > 1e6 for p in b.gate.params)
        ma, mb = ref.subs_np(a.gate.matrix, values), ref.subs_np(b.gate.matrix, values)
        if big or not np.all(np.isfinite(mb)):
            continue
        tol = 1e-9 * max(1.0, float(np.max(np.abs(mb)))) * max(
            [1.0] + [abs(ref.eval_expr(sympy.sympify(p), values)) for p in b.gate.params])
        ctx.close(ma, mb, f"{label}: matrix of operation {i}", tol, op=b, values=values, **w)
        ctx.ev("matrices_compared")


def _exact_def(d):
    return not any(sympy.sympify(e).has(sympy.Float) for e in d.matrix)


def _root(g):
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g


def _json(ctx, dict_):
    text = json.dumps(dict_)
    return json.loads(text), text


def _file_trip(ctx, rng, obj, save, load):
    path = os.path.join(ctx.tmpdir(), rng.choice(["c.json", "circuit", "x y.json", "θ.json"]))
    style = rng.randrange(6)
    if style == 0:
        save(obj, path)
    elif style == 1:
        save(obj, pathlib.Path(path))
    elif style == 2:
        with open(path, "w") as f:
            save(obj, f)
    elif style == 3:
        buf = io.StringIO()
        save(obj, buf)
        with open(path, "w") as f:
            f.write(buf.getvalue())
    elif style == 4:  # an existing, longer file is replaced
        with open(path, "w") as f:
            f.write("x" * 100000)
        save(obj, path)
    else:
        with open(path, "w") as f:
            json.dump(C.to_dict(obj), f)
    r = rng.randrange(4)
    ctx.ev("file_round_trips")
    if r == 0:
        return load(path)
    if r == 1:
        return load(pathlib.Path(path))
    if r == 2:
        with open(path) as f:
            return load(f)
    with open(path) as f:
        return load(io.StringIO(f.read()))


def case_circuit(ctx):
    rng = ctx.rng
    circ, chains = _circuit(ctx, rng)
    before = repr(circ)
    ctx.note(circ)
    ctx.note([op.params for op in circ.operations])
    d = C.to_dict(circ)
    data, text = _json(ctx, d)
    new = C.circuit_from_dict(data)
    _compare(ctx, new, circ, chains, "JSON text")
    ctx.check(json.dumps(data) == text, "deserialisation changed the dictionary", text=text)
    ctx.check(repr(circ) == before, "serialisation changed the circuit", before=before)
    if rng.random() < 0.3:
        again = C.circuit_from_dict(json.loads(json.dumps(C.to_dict(new))))
        _compare(ctx, again, circ, chains, "second round trip", matrices=False)
    if rng.random() < 0.2:
        shuffled = json.loads(json.dumps(data, sort_keys=True))
        _compare(ctx, C.circuit_from_dict(shuffled), circ, chains, "JSON text with sorted keys", matrices=False)
    if rng.random() < 0.3:
        loaded = _file_trip(ctx, rng, circ, C.save_circuit, C.load_circuit)
        _compare(ctx, loaded, circ, chains, "file", matrices=False)
    if circ.operations:
        ctx.nontrivial(text)
        ctx.sample(text)


def case_set(ctx):
    rng = ctx.rng
    items = [_circuit(ctx, rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    if items and rng.random() < 0.3:
        items.append(items[0])
    circs = [c for c, _ in items]
    data, text = _json(ctx, C.to_dict(circs))
    news = [("list through JSON", C.circuitset_from_dict(data)),
            ("list through a file", _file_trip(ctx, rng, circs, C.save_circuitset, C.load_circuitset))]
    for label, new in news:
        ctx.check(len(new) == len(circs), f"{label}: length", got=len(new), want=len(circs))
        for a, (b, ch) in zip(new, items):
            _compare(ctx, a, b, ch, label, matrices=False)
        ctx.ev("lists")
    ctx.nontrivial(text)


def case_gate(ctx):
    """One deep wrapper chain at a time, every built-in as the base in turn."""
    rng = ctx.rng
    names = sorted(ref.BUILTINS)
    name = names[ctx.index % len(names)]
    syms = _symbols(rng, 2)
    numeric = rng.random() < 0.6
    g = gen.make_builtin(rng, name, lambda: float(gen.angle(rng)) if numeric else rng.choice(syms))
    chain = []
    for _ in range(rng.randint(0, 6)):
        m = rng.choice(["ctrl", "dag", "pow", "exp"] if numeric or not g.params else ["ctrl", "dag"])
        chain.append(m)
        if m == "ctrl":
            g = g.controlled(rng.randint(1, 3))
        elif m == "dag":
            g = g.dagger
        elif m == "pow":
            g = g.power(rng.choice(EXPONENTS))
        else:
            g = g.exp
    circ = C.Circuit([g(*range(g.num_qubits))])
    new = C.circuit_from_dict(json.loads(json.dumps(C.to_dict(circ))))
    tame = chain.count("pow") + chain.count("exp") == 0
    _compare(ctx, new, circ, [_Chain(g, True, tame)], "JSON text")
    ctx.nontrivial(str(circ))
    ctx.sample(circ)


def case_names(ctx):
    """Every hostile symbol name, alone and beside constants and others."""
    rng = ctx.rng
    pool = list(dict.fromkeys(NAMES + [s for s in lits.STRINGS if s.isidentifier() and not _keyword(s)]))
    name = pool[ctx.index % len(pool)]
    s = sympy.Symbol(name)
    others = [sympy.Symbol(x) for x in rng.sample([p for p in pool if p != name], 3)]
    params = [s, 2 * s, s + sympy.pi, s - sympy.E, sympy.cos(s) + s, s * others[0] - 0.5 * others[1],
              sympy.exp(others[0]) * s, s**2 + sympy.sqrt(2) * others[2], sympy.sqrt(others[1] ** 2 + 1) - s]
    ops = [C.RX(p)(i) for i, p in enumerate(params)]
    ops.append(C.U3(s, others[0] + s, sympy.pi * others[1])(1))
    m = sympy.Matrix([[sympy.exp(sympy.I * s), 0], [0, sympy.exp(sympy.I * (others[0] - 2 * s))]])
    d = C.CustomGateDefinition("named", m, (others[0], s))
    ops.append(d(others[1], s * 3)(0))
    ops.append(d(1.5, others[2])(2))
    circ = C.Circuit(ops)
    new = C.circuit_from_dict(json.loads(json.dumps(C.to_dict(circ))))
    chains = [_Chain(op.gate, False, True) for op in ops]
    _compare(ctx, new, circ, chains, f"symbol {name}")
    ctx.nontrivial(name, [str(o) for o in others])


def case_long(ctx):
    """Many operations that nearly coincide, over many definitions."""
    rng = ctx.rng
    n = rng.choice([3, 5, 12, 40])
    count = rng.choice([0, 1, 4, 12])
    defs = []
    for i in range(count):
        name = f"{rng.choice(['g', 'gate', 'G'])}{i}" if rng.random() < 0.8 else f"g_{i}"
        if any(d.gate_name == name for d, _ in defs):
            continue
        if rng.random() < 0.5:
            d, k, _ = gen.custom_parametric(ctx, name)
            defs.append((d, k))
        else:
            defs.append((gen.custom_exact(ctx, name), 0))
    chains, ops = [], []
    for _ in range(rng.choice([15, 30, 70, 150])):
        r = rng.random()
        if chains and r < 0.6:
            ch = rng.choice(chains[-6:])
            g, exact, tame = ch.gate, ch.exact, ch.tame
            if g.params and r < 0.35 and not hasattr(g, "exponent") and "exp" not in type(g).__name__.lower():
                ps = list(g.params)
                i = rng.randrange(len(ps))
                p = ps[i]
                if isinstance(p, (int, float)):
                    ps[i] = rng.choice([float(p) + 1e-9, float(p) * (1 + 3e-16), -p, float(p), p])
                elif isinstance(p, sympy.Basic):
                    ps[i] = rng.choice([-p, 2 * p, p + 1, p])
                try:
                    g = g.replace_params(tuple(ps))
                except NotImplementedError:
                    pass
            elif r < 0.45 and g.num_qubits < min(n, 5):
                g = g.controlled(1)
            elif r < 0.5:
                g = g.dagger
            ch = _Chain(g, exact, False)
        else:
            ch = _gate(ctx, rng, defs, min(n, 4), rng.choice([0, 0, 1, 2]))
        chains.append(ch)
        ops.append(ch.gate(*gen.qubit_tuple(rng, ch.gate.num_qubits, n)))
    circ = C.Circuit(ops, n_qubits=n if rng.random() < 0.5 else None)
    data, text = _json(ctx, C.to_dict(circ))
    _compare(ctx, C.circuit_from_dict(data), circ, chains, "long circuit", matrices=False)
    other = C.Circuit([rng.choice(ops) for _ in range(5)])
    pair = C.circuitset_from_dict(json.loads(json.dumps(C.to_dict([other, circ]))))
    ctx.check(len(pair) == 2, "long list: length", got=len(pair))
    _compare(ctx, pair[1], circ, chains, "long circuit in a list", matrices=False)
    ctx.ev("long_circuits")
    ctx.nontrivial(text[:5000])


def _namesake(ctx, d):
    """Another definition of that name, with a different meaning."""
    rng = ctx.rng
    m = sympy.Matrix(d.matrix)
    kind = rng.choice(["other", "element", "element", "transpose", "conjugate", "size", "order", "expression", "scaled"])
    params = tuple(d.params_ordering)
    if kind == "other":
        return gen.custom_numeric(ctx, rng.choice([1, 2]), d.gate_name)
    if kind == "element":
        m = m.as_mutable()
        i, j = rng.randrange(m.shape[0]), rng.randrange(m.shape[1])
        m[i, j] = m[i, j] + rng.choice([1e-3, -0.5, sympy.I / 7, 1, sympy.Rational(1, 1000)])
    elif kind == "transpose":
        m = m.T
    elif kind == "conjugate":
        m = m.conjugate()
    elif kind == "scaled":
        m = m * rng.choice([-1, sympy.I, 1.001])
    elif kind == "size":
        m = sympy.diag(m, sympy.eye(m.shape[0])) if rng.random() < 0.5 else sympy.diag(sympy.eye(m.shape[0]), m)
    elif kind == "order":
        params = params[::-1]
    elif kind == "expression" and params:
        m = m.subs({params[0]: 2 * params[0]})
    return C.CustomGateDefinition(d.gate_name, sympy.Matrix(m), params)


def case_namesakes(ctx):
    """Two meanings of one custom gate name: refused, or kept apart."""
    rng = ctx.rng
    name = rng.choice(["custom", "u", "G[1]", "A"])
    r = rng.random()
    if r < 0.4:
        d, k, _ = gen.custom_parametric(ctx, name)
    elif r < 0.5:
        # the first row of the larger one reads like the whole smaller one
        d, k = C.CustomGateDefinition(name, sympy.Matrix([[1, 0], [0, 0]]), ()), 0
    else:
        d, k = rng.choice([lambda: gen.custom_numeric(ctx, rng.choice([1, 1, 2]), name), lambda: gen.custom_exact(ctx, name)])(), 0
    other = C.CustomGateDefinition(name, sympy.eye(4), ()) if 0.4 <= r < 0.5 else _namesake(ctx, d)
    a, b = ref.subs_np(d.matrix, {s: 0.7 + i for i, s in enumerate(d.params_ordering)}), ref.subs_np(other.matrix, {s: 0.7 + i for i, s in enumerate(other.params_ordering)})
    if a.shape == b.shape and np.allclose(a, b, atol=1e-6):
        return
    n = 3
    ops = [C.H(0)]
    for _ in range(rng.randint(2, 5)):
        e = rng.choice([d, other]) if len(ops) > 2 else (d if len(ops) == 1 else other)
        g = e(*[gen.angle(rng) for _ in e.params_ordering])
        if rng.random() < 0.4:
            g = rng.choice([lambda: g.dagger, lambda: C.Dagger(g), lambda: g.power(2)])()
        if g.num_qubits < n and rng.random() < 0.4:
            g = g.controlled(1)
        ops.append(g(*gen.qubit_tuple(rng, g.num_qubits, n)))
    if rng.random() < 0.5:
        rng.shuffle(ops)
    circ = C.Circuit(ops)
    chains = [_Chain(op.gate, False, False) for op in ops]

    def trip(label, write, read):
        try:
            data = json.loads(json.dumps(write()))
        except Exception:
            ctx.ev("namesakes_refused")
            ctx.ev("oracle")
            return
        new = read(data)
        w = dict(circuit=circ, definitions=(d, other))
        ctx.check(len(new.operations) == len(ops), f"{label}: number of operations", **w)
        for i, (x, y) in enumerate(zip(new.operations, ops)):
            _gate_equal(ctx, x.gate, y.gate, f"{label}: operation {i} of two definitions with one name", **w)
        ctx.ev("namesakes_kept")

    trip("namesakes", lambda: C.to_dict(circ), C.circuit_from_dict)
    trip("namesakes in a list", lambda: C.to_dict([circ]), lambda data: C.circuitset_from_dict(data)[0])
    # each alone in a circuit of its own: nothing to confuse
    alone = [C.Circuit([op]) for op in ops]
    news = C.circuitset_from_dict(json.loads(json.dumps(C.to_dict(alone))))
    ctx.check(len(news) == len(alone), "list of namesakes: length", got=len(news))
    for x, y, ch in zip(news, alone, chains):
        _compare(ctx, x, y, [ch], "namesakes in separate circuits", matrices=False)
    ctx.ev("namesakes_apart")
    ctx.nontrivial(repr(circ), str(d), str(other))


def _keyword(s):
    import keyword

    return keyword.iskeyword(s)


WORKLOADS = [
    dict(name="names", case=case_names, quick=120, thorough=400, fixed=True),
    dict(name="gate", case=case_gate, quick=540, thorough=5400, hang="inconclusive", cpu_limit=20.0),
    dict(name="circuit", case=case_circuit, quick=1200, thorough=20000, hang="inconclusive", cpu_limit=20.0),
    dict(name="long", case=case_long, quick=80, thorough=1500, hang="inconclusive", cpu_limit=30.0),
    dict(name="namesakes", case=case_namesakes, quick=250, thorough=4000, hang="inconclusive", cpu_limit=20.0),
    dict(name="set", case=case_set, quick=150, thorough=2000, hang="inconclusive", cpu_limit=20.0),
]
REQUIRED_EVENTS = ("layers_compared", "definitions_compared", "library_equalities", "matrices_compared",
                   "file_round_trips", "lists", "long_circuits", "expression_values", "namesakes_apart")
