"""Seeded generators of hostile inputs, shared by the property modules."""
import math

import numpy as np
import sympy

from orquestra.quantum import circuits as C

from . import lits
from .ref import BUILTINS, to_np

PI = math.pi
BY_ARITY = {}
for _name, (_np, _nq) in BUILTINS.items():
    BY_ARITY.setdefault(_nq, []).append(_name)


def builtin(name):
    return getattr(C, name)


# -- numbers -----------------------------------------------------------------


def angle(rng, kind=None):
    """A real parameter value as a Python float, of many magnitudes."""
    r = rng.random()
    if r < 0.34:
        return rng.uniform(-2 * PI, 2 * PI)
    if r < 0.6:
        return rng.randint(-17, 17) * PI / rng.choice([1, 2, 2, 3, 4, 4, 6, 8])
    if r < 0.68:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1)
    if r < 0.78:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(0.5, 4)
    if r < 0.86:
        return float(rng.randint(-12, 12))
    if r < 0.92:
        return rng.randint(-8, 8) * PI / 2 + rng.choice([-1, 1]) * 10 ** rng.uniform(
            -11, -3
        )
    if r < 0.97 and lits.FLOATS:
        v = rng.choice(lits.FLOATS)
        return max(-1e4, min(1e4, v)) + rng.choice([0, 0, 1e-7, -1e-7])
    return rng.choice([0.0, -0.0, 2 * PI, -2 * PI, 4 * PI, 1.0, -1.0, 0.5])


def typed_number(rng, value=None):
    """The value as one of the numeric types a user may pass as a parameter."""
    if value is None:
        value = angle(rng)
    r = rng.random()
    if r < 0.5:
        return float(value)
    if r < 0.6:
        return np.float64(value)
    if r < 0.7:
        return sympy.Float(value)
    if r < 0.8:
        return int(round(value)) if abs(value) < 1e6 else float(value)
    if r < 0.93:
        return sympy.pi * sympy.Rational(rng.randint(-16, 16), rng.choice([1, 2, 3, 4, 8]))
    if r < 0.97:
        return sympy.Rational(rng.randint(-40, 40), rng.randint(1, 9))
    return sympy.Integer(rng.randint(-9, 9))


SYMBOL_NAMES = [
    "theta", "phi", "gamma", "alpha", "beta_2", "beta_10", "x", "y", "z", "a", "b",
    "theta_0", "theta_1", "theta_12", "lambda_", "x0", "x1", "x10", "t", "omega",
]  # fmt: skip


ODD_NAMES = [
    "_x", "__y", "_", "_symbol_0_", "X", "Theta", "THETA", "theta_01", "theta_001", "S", "E", "I", "N", "pi", "beta",
    "i", "e1", "x[0]", "x[10]", "θ", "x y", "a'", "a.b", "1a", "0", "q0", "w*", "lambda", "None", "x_1_2", "-x", "dummy", "symbol_10", "symbol_9",
]  # fmt: skip


def symbols(rng, n, names=None):
    """Symbols of usual names, or (one time out of four if names aren't given) also of odd ones."""
    pool = list(names or SYMBOL_NAMES)
    if names is None and rng.random() < 0.25:
        pool = rng.sample(pool, 4) + ODD_NAMES
    return [sympy.Symbol(s) for s in rng.sample(pool, n)]


def expression(rng, syms, depth=2):
    """A real-valued-for-real-symbols expression in the given symbols."""
    r = rng.random()
    if depth == 0 or r < 0.3:
        return rng.choice(syms)
    if r < 0.4:
        return rng.choice(syms) * rng.choice(
            [2, -1, 3, sympy.Rational(1, 2), 0.5, -0.25, 1.5, sympy.pi]
        )
    if r < 0.5:
        return rng.choice(syms) + rng.choice(
            [1, -2, 0.75, sympy.pi / 2, -sympy.pi, sympy.Rational(1, 3)]
        )
    a = expression(rng, syms, depth - 1)
    b = expression(rng, syms, depth - 1)
    r = rng.random()
    if r < 0.35:
        return a + b
    if r < 0.55:
        return a - b
    if r < 0.75:
        return a * b
    if r < 0.85:
        return sympy.cos(a)
    if r < 0.95:
        return sympy.sin(a) + b
    return a**2 - b


# -- unitaries and custom gates ------------------------------------------------


def rand_unitary(npr, dim):
    m = npr.normal(size=(dim, dim)) + 1j * npr.normal(size=(dim, dim))
    q, r = np.linalg.qr(m)
    d = np.diag(r)
    return q * (d / np.abs(d))


def perm_unitary(npr, dim):
    """A phased permutation: asymmetric, so that orderings show."""
    p = npr.permutation(dim)
    ph = np.exp(1j * npr.uniform(0, 2 * np.pi, dim))
    m = np.zeros((dim, dim), dtype=complex)
    m[p, np.arange(dim)] = ph
    return m


def to_sympy(m):
    return sympy.Matrix(
        [[sympy.Float(x.real) + sympy.I * sympy.Float(x.imag) for x in row] for row in m]
    )


def custom_numeric(ctx, k, name=None):
    rng = ctx.rng
    name = name or f"custom_{rng.choice('abcd')}{k}"
    m = rand_unitary(ctx.np, 2**k) if rng.random() < 0.6 else perm_unitary(ctx.np, 2**k)
    return C.CustomGateDefinition(name, to_sympy(m), ())


def custom_exact(ctx, name=None):
    """Non-parametric custom definitions with exact sympy matrices."""
    rng = ctx.rng
    I = sympy.I
    s2 = 1 / sympy.sqrt(2)
    table = [
        [[0, 1], [I, 0]],
        [[s2, s2 * I], [s2 * I, s2]],
        [[0, -I], [1, 0]],
        [[1, 0, 0, 0], [0, 0, I, 0], [0, 1, 0, 0], [0, 0, 0, -1]],
        [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0]],
        [[s2, 0, 0, s2], [0, 1, 0, 0], [0, 0, I, 0], [-s2, 0, 0, s2]],
    ]
    m = rng.choice(table)
    return C.CustomGateDefinition(
        name or f"exact_{rng.choice('pqrs')}", sympy.Matrix(m), ()
    )


def custom_parametric(ctx, name=None, names=None):
    """A parametric custom gate definition, its number of params and qubits."""
    rng = ctx.rng
    kind = rng.randrange(5)
    name = name or f"param_{rng.choice('uvw')}{kind}"
    pool = names or SYMBOL_NAMES
    if kind == 0:
        (a,) = symbols(rng, 1, pool)
        m = [[sympy.exp(sympy.I * a), 0], [0, sympy.exp(-2 * sympy.I * a)]]
        params = (a,)
    elif kind == 1:
        a, b = symbols(rng, 2, pool)
        m = [
            [sympy.cos(a), -sympy.exp(sympy.I * b) * sympy.sin(a)],
            [sympy.exp(-sympy.I * b) * sympy.sin(a), sympy.cos(a)],
        ]
        params = (a, b)
    elif kind == 2:
        a, b = symbols(rng, 2, pool)
        m = [
            [1, 0, 0, 0],
            [0, sympy.cos(a), sympy.I * sympy.sin(a), 0],
            [0, sympy.I * sympy.sin(a), sympy.cos(a), 0],
            [0, 0, 0, sympy.exp(sympy.I * b)],
        ]
        params = (a, b)
    elif kind == 3:
        a, b, c = symbols(rng, 3, pool)
        m = [
            [sympy.exp(sympy.I * (a + 2 * b)), 0],
            [0, sympy.exp(sympy.I * (c - a))],
        ]
        params = (a, b, c)
    else:
        a, b = symbols(rng, 2, pool)
        # params order differs from the alphabetical one half of the time
        m = [[0, sympy.exp(sympy.I * a)], [sympy.exp(sympy.I * (a - 3 * b)), 0]]
        params = (b, a)
    m = sympy.Matrix(m)
    return C.CustomGateDefinition(name, m, params), len(params), int(math.log2(m.shape[0]))


# -- gates ---------------------------------------------------------------------


def make_builtin(rng, name, param):
    n_params, _ = BUILTINS[name]
    proto = builtin(name)
    if n_params == 0:
        return proto
    return proto(*[param() for _ in range(n_params)])


def base_gate(ctx, max_qubits=2, param=None, custom=True):
    """An unwrapped gate of at most max_qubits qubits (customs up to 4)."""
    rng = ctx.rng
    if param is None:
        param = lambda: typed_number(rng)  # noqa: E731
    r = rng.random()
    if custom and r < 0.2:
        k = rng.randint(1, min(4, max_qubits))
        if k <= 3 or rng.random() < 0.5:
            return custom_numeric(ctx, k)()
    if custom and r < 0.25:
        d = custom_exact(ctx)
        if d.matrix.shape[0] <= 2**max_qubits:
            return d()
    if custom and r < 0.33:
        d, n_params, k = custom_parametric(ctx)
        if k <= max_qubits:
            return d(*[param() for _ in range(n_params)])
    names = [n for n, (_, q) in BUILTINS.items() if q <= max_qubits]
    return make_builtin(rng, rng.choice(names), param)


def _sympy_exp_works(g):
    """One-qubit gates whose exponential sympy computes reliably."""
    return (
        g.num_qubits == 1
        and g.name in BUILTINS
        and g.name != "U3"
        and all(type(p) is float for p in g.params)
    )


def wrapped_gate(ctx, max_qubits=4, param=None, depth=2, allow=("ctrl", "dag", "pow"), custom=True):
    """A gate under a random, numerically tame chain of modifiers.

    Fractional powers and exponentials are at most one per chain and are applied to
    an unmodified base gate (sympy's matrix functions do not cope with more).
    """
    rng = ctx.rng
    g = base_gate(ctx, min(max_qubits, rng.choice([1, 1, 2, 2, 3, 4])), param, custom)
    hard = 0
    spent, inverted = 1, False
    symbolic = bool(list(g.free_symbols))
    for i in range(rng.randint(0, depth)):
        m = rng.choice(allow)
        if m == "ctrl":
            room = max_qubits - g.num_qubits
            if room >= 1:
                g = g.controlled(rng.randint(1, min(room, 3)))
        elif m == "dag":
            g = g.dagger
        elif m == "pow" and not symbolic and not hard:
            # sympy inverts and multiplies large float matrices slowly
            # (and exponentials of floats stay symbolic in what it then expands)
            choices = [2, 3, -1, 0, 1, -2] if g.num_qubits <= 2 else [2, 3, 0, 1]
            if spent > 1 or inverted:
                choices = [0, 1, -1] if not inverted else [0, 1]
            k = rng.choice(choices)
            spent *= max(1, abs(k))
            inverted = inverted or k < 0
            g = g.power(k)
        elif m == "exp" and not symbolic and not hard and i == 0 and _sympy_exp_works(g):
            g = g.exp
            hard = 1
    return g


def qubit_tuple(rng, k, n):
    """An ordered tuple of k distinct qubits out of n, of varied shapes."""
    r = rng.random()
    if r < 0.15:
        start = rng.randint(0, n - k)
        t = list(range(start, start + k))
    elif r < 0.3:
        start = rng.randint(0, n - k)
        t = list(range(start, start + k))[::-1]
    elif r < 0.45:
        start = rng.randint(0, n - k)
        t = list(range(start, start + k))
        rng.shuffle(t)
    elif r < 0.6 and k >= 2:
        t = [0, n - 1] + rng.sample(range(1, n - 1), k - 2)
        rng.shuffle(t)
    else:
        t = rng.sample(range(n), k)
    return tuple(t)


def circuit_ops(ctx, n, length, gate=None, **kw):
    ops = []
    rng = ctx.rng
    pool = []
    for _ in range(length):
        r = rng.random()
        if ops and r < 0.12:
            # the neighbour again, on the same qubits in the same or another order
            qs = list(ops[-1].qubit_indices)
            rng.random() < 0.7 and rng.shuffle(qs)
            ops.append(ops[-1].gate(*qs) if isinstance(ops[-1], C.GateOperation) else ops[-1])
            continue
        if pool and r < 0.3:
            g = rng.choice(pool)  # shared gate objects
        else:
            g = gate() if gate else wrapped_gate(ctx, max_qubits=min(n, 4), **kw)
            pool.append(g)
        ops.append(g(*qubit_tuple(rng, g.num_qubits, n)))
    return ops


def circuit(ctx, n=None, length=None, idle=True, **kw):
    """A circuit with numeric parameters; returns (circuit, declared width)."""
    rng = ctx.rng
    n = n or rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
    length = rng.choice([0, 1, 1, 2, 3, 4, 6, 9]) if length is None else length
    ops = circuit_ops(ctx, n, length, **kw)
    if idle and rng.random() < 0.5:
        return C.Circuit(ops, n_qubits=n)
    if rng.random() < 0.5:
        return C.Circuit(ops)
    c = C.Circuit()
    for op in ops:
        c += op
    return c


def steps(circ):
    return [(to_np(op.gate.matrix), op.qubit_indices) for op in circ.operations]


def state(ctx, n, kind=None):
    npr, rng = ctx.np, ctx.rng
    kind = kind or rng.choice(["haar", "haar", "basis", "real", "sparse"])
    d = 2**n
    if kind == "basis":
        v = np.zeros(d, dtype=rng.choice([complex, float, int]))
        v[rng.randrange(d)] = 1
        return v
    if kind == "real":
        v = npr.normal(size=d)
        return v / np.linalg.norm(v)
    v = npr.normal(size=d) + 1j * npr.normal(size=d)
    if kind == "sparse" and d > 2:
        v[npr.random(d) < 0.5] = 0
        if not np.any(v):
            v[0] = 1
    return v / np.linalg.norm(v)


# -- Pauli operators -----------------------------------------------------------


def coefficient(rng, real=False, ints=True):
    r = rng.random()
    if r < 0.25 and ints:
        v = rng.randint(-5, 5)
    elif r < 0.6:
        v = rng.uniform(-3, 3)
    elif r < 0.7:
        v = rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6)
    elif r < 0.8:
        v = rng.choice([1.0, -1.0, 0.5, -0.5, 0.0, -0.0, 2.0])
    else:
        v = rng.uniform(-1, 1)
    if real:
        return v
    r = rng.random()
    if r < 0.55:
        return v
    if r < 0.75:
        return complex(v, rng.uniform(-3, 3))
    if r < 0.85:
        return complex(0, v)
    return complex(v, 0)


def pauli_ops(rng, n, max_weight=None, letters="XYZ", qubits=None):
    qubits = list(range(n)) if qubits is None else list(qubits)
    w = rng.randint(0, min(len(qubits), max_weight if max_weight is not None else len(qubits)))
    qs = rng.sample(qubits, w)
    return {q: rng.choice(letters) for q in qs}


def term(rng, n, coeff=None, **kw):
    from orquestra.quantum.operators import PauliTerm

    ops = pauli_ops(rng, n, **kw)
    c = coefficient(rng) if coeff is None else coeff
    items = list(ops.items())
    rng.shuffle(items)
    if rng.random() < 0.5:
        return PauliTerm.from_iterable([(p, q) for q, p in items], c)
    return PauliTerm({q: p for q, p in items}, c)


def pauli_sum(rng, n, n_terms=None, dup=True, real=False, **kw):
    from orquestra.quantum.operators import PauliSum

    k = rng.choice([0, 1, 2, 2, 3, 4, 6]) if n_terms is None else n_terms
    terms = []
    for _ in range(k):
        if dup and terms and rng.random() < 0.25:
            t = rng.choice(terms)
            terms.append(t.copy(new_coefficient=coefficient(rng, real=real)))
        else:
            terms.append(term(rng, n, coeff=coefficient(rng, real=real), **kw))
    return PauliSum(terms)


def ising_sum(rng, n, n_terms=None, real=True, **kw):
    return pauli_sum(rng, n, n_terms, real=real, letters="Z", **kw)


# -- gates that are easily taken for one another -------------------------------


def variant(ctx, g):
    """A gate that is equal to, or easily taken for, the given one."""
    rng = ctx.rng
    r = rng.random()
    if g.params and r < 0.6 and all(isinstance(p, (int, float)) for p in g.params):
        params = list(g.params)
        i = rng.randrange(len(params))
        k = rng.random()
        if k < 0.5:
            params[i] = params[i] + rng.choice([-1, 1]) * 10 ** rng.uniform(-7, -1)
        elif k < 0.65:
            params[i] = -params[i]
        elif k < 0.8:
            params[i] = params[i] + rng.choice([2, 4, -2]) * np.pi
        else:
            rng.shuffle(params)
        return g.replace_params(tuple(params))
    if r < 0.75:
        return g.dagger
    if r < 0.85:
        return g.power(rng.choice([1, 2, -1]))
    return g


def similar_pool(ctx, n):
    """Gates on at most n qubits: near-copies, namesakes, equal numbers of different types."""
    rng = ctx.rng
    pool = [make_builtin(rng, rng.choice(["RX", "RY", "RZ", "PHASE", "RH", "CPHASE", "XX", "ZZ", "XY", "U3"]), lambda: rng.uniform(-3, 3)) for _ in range(2)]
    if rng.random() < 0.6:
        k = rng.choice([1, 2])  # two definitions under one name
        pool += [custom_numeric(ctx, k, name="same")(), custom_numeric(ctx, k, name="same")()]
    if rng.random() < 0.5:
        pool += [C.X, C.Y, C.RX(1), C.RX(1.0), C.RX(sympy.Integer(1)), C.S, C.T]
    return [g for g in pool if g.num_qubits <= n] or [C.H]


def similar_ops(ctx, n, length):
    """A list of operations, many equal or nearly so, some of them one shared object."""
    rng = ctx.rng
    pool = similar_pool(ctx, n)
    ops = []
    while len(ops) < length:
        g = rng.choice(pool)
        if rng.random() < 0.5:
            g = variant(ctx, g)
            if rng.random() < 0.3 and len(pool) < 12:
                pool.append(g)
        if rng.random() < 0.15 and g.num_qubits < n:
            g = g.controlled(1)
        op = g(*qubit_tuple(rng, g.num_qubits, n))
        ops += [op] * rng.choice([1, 1, 1, 2])
        if rng.random() < 0.2:
            t = list(op.qubit_indices)
            rng.shuffle(t)
            ops.insert(rng.randint(0, len(ops)), g(*t))
    return ops[:length]
