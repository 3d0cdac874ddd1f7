"""C02 - every built-in gate is a valid unitary that keeps its textbook identities."""
import itertools
import math

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import builtin_gate_by_name

from vmon import gen, ref
from vmon.ref import BUILTINS, to_np

PROPERTY = "C02"
RULE = (
    "each of the 27 built-in gates at every parameter tuple of a hostile grid (exact "
    "multiples of pi/12 in [-4pi, 4pi], integers, tiny, huge and near-special values, as "
    "int, float, numpy float, sympy Float/Rational/multiple of pi) and at random "
    "parameters: matrix computable, dimension, unitarity, hermiticity flag against the "
    "matrix, dagger, additive groups for pairs of angles, defining relations of fixed "
    "gates; symbolic matrices are evaluated at sampled values. Identified by (gate, "
    "parameters)."
)
ASSUMPTIONS = [
    "entries are trigonometric polynomials of the parameters on each branch; the sampled grid "
    "with generic points decides them up to branches that no sampled value reaches",
    "1e-9 absolute tolerance",
]
TOL = 1e-9
GROUPS = ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]


def _gate(name, params):
    proto = getattr(C, name)
    return proto(*params) if BUILTINS[name][0] else proto


def _matrix(ctx, name, params):
    g = _gate(name, params)
    try:
        m = ctx.hold(g.matrix, "gate.matrix")
        a = to_np(m)
    except Exception as e:
        ctx.fail(f"matrix of {name} cannot be computed: {type(e).__name__}: {e}", params=params)
    ctx.ev("matrices")
    return g, a


def _valid(ctx, name, params):
    g, a = _matrix(ctx, name, params)
    n_params, nq = BUILTINS[name]
    ctx.check(g.num_qubits == nq or nq is None, "declared number of qubits", gate=g, got=g.num_qubits)
    d = 2**g.num_qubits
    ctx.check(a.shape == (d, d), "matrix is not square of dimension 2**num_qubits", gate=g, shape=a.shape)
    ctx.close(a @ a.conj().T, np.eye(d), f"{name}: not unitary", TOL, params=params)
    ctx.close(a.conj().T @ a, np.eye(d), f"{name}: not unitary", TOL, params=params)
    if g.is_hermitian:
        ctx.close(a, a.conj().T, f"{name}: flagged self-adjoint, but is not", TOL, params=params)
        ctx.ev("hermitian_flagged")
    dg = g.dagger
    ctx.check(dg.num_qubits == g.num_qubits, "dagger changes the number of qubits", gate=g)
    ctx.close(to_np(dg.matrix), a.conj().T, f"{name}: dagger is not the adjoint", TOL, params=params)
    # a second, independent instance has the same matrix (no hidden state)
    ctx.close(to_np(g.matrix), a, f"{name}: matrix changes between calls", 0.0, params=params)
    ctx.close(to_np(_gate(name, params).matrix), a, f"{name}: depends on history", 0.0, params=params)
    ctx.nontrivial(name, tuple(str(p) for p in params))
    return a


def case_grid(ctx):
    """One gate, one slice of the grid of special values."""
    names = list(BUILTINS)
    name = names[ctx.index % len(names)]
    n_params = BUILTINS[name][0]
    ctx.check(builtin_gate_by_name(name) is getattr(C, name) or n_params, "lookup by name", name=name)
    if n_params == 0:
        _valid(ctx, name, ())
        ctx.sample(name)
        return
    rot = ctx.index // len(names)
    specials = [k * math.pi / 12 for k in range(-48, 49)]
    exact = [sympy.pi * sympy.Rational(k, 12) for k in range(-48, 49)]
    more = [0, 1, -1, 2, 7, -13, 100, 0.0, -0.0, 1e-12, 1e-9, -1e-6, 1e-3, 1e3, -12345.678,
            np.float64(0.3), np.float64(-2.5), sympy.Float(1.25), sympy.Rational(1, 3), sympy.Integer(3),
            math.pi, -math.pi, 2 * math.pi, 4 * math.pi, 3 * math.pi, math.pi + 1e-9, math.pi / 2 - 1e-8]
    values = specials + exact + more
    if n_params == 1:
        pick = values[rot::3]
        for v in pick:
            _valid(ctx, name, (v,))
    else:
        for _ in range(40):
            _valid(ctx, name, tuple(ctx.rng.choice(values) for _ in range(n_params)))
    ctx.sample(name, "slice", rot, "of the special-value grid")


def case_random(ctx):
    rng = ctx.rng
    name = rng.choice([n for n, (k, _) in BUILTINS.items() if k])
    params = tuple(gen.typed_number(rng) for _ in range(BUILTINS[name][0]))
    _valid(ctx, name, params)
    ctx.sample(name, params)


def case_group(ctx):
    rng = ctx.rng
    for name in GROUPS:
        a, b = gen.typed_number(rng), gen.typed_number(rng)
        if rng.random() < 0.15:
            b = -a
        if rng.random() < 0.1:
            b = a
        if rng.random() < 0.2:
            b = rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -2)
        _, ma = _matrix(ctx, name, (a,))
        _, mb = _matrix(ctx, name, (b,))
        _, mab = _matrix(ctx, name, (a + b,))
        ctx.close(mb @ ma, mab, f"{name}: angles do not add", TOL, a=a, b=b)
        ctx.close(ma @ mb, mab, f"{name}: angles do not add", TOL, a=a, b=b)
        ctx.ev("group_laws")
        for zero in (0, 0.0, -0.0, sympy.Integer(0), sympy.Float(0), np.float64(0)):
            _, mz = _matrix(ctx, name, (zero,))
            ctx.close(mz, np.eye(len(mz)), f"{name}: zero angle is not the identity", TOL, zero=zero)
        ctx.nontrivial(name, str(a), str(b))
    # the group law through the library's own circuit composition
    name = rng.choice(GROUPS)
    nq = BUILTINS[name][1]
    a, b = rng.uniform(-7, 7), rng.uniform(-7, 7)
    qs = tuple(range(nq))
    circ = C.Circuit([_gate(name, (a,))(*qs), _gate(name, (b,))(*qs)])
    ctx.close(to_np(circ.to_unitary()), to_np(_gate(name, (a + b,)).matrix), f"{name}: composed", TOL, a=a, b=b)
    ctx.sample(name, a, b)


def case_relations(ctx):
    m = {n: to_np(getattr(C, n).matrix) for n, (k, _) in BUILTINS.items() if k == 0}
    X, Y, Z, H, I = m["X"], m["Y"], m["Z"], m["H"], m["I"]
    e2, e4 = np.eye(2), np.eye(4)
    P0, P1 = np.diag([1, 0]), np.diag([0, 1])
    ctl = lambda u: np.kron(P0, e2) + np.kron(P1, u)  # noqa: E731
    rel = {
        "S*S=Z": (m["S"] @ m["S"], Z), "T*T=S": (m["T"] @ m["T"], m["S"]),
        "SX*SX=X": (m["SX"] @ m["SX"], X), "H*Z*H=X": (H @ Z @ H, X), "H*X*H=Z": (H @ X @ H, Z),
        "I is the identity": (I, e2), "X*X=1": (X @ X, e2), "Y*Y=1": (Y @ Y, e2), "Z*Z=1": (Z @ Z, e2),
        "H*H=1": (H @ H, e2), "X*Y=iZ": (X @ Y, 1j * Z), "Y*Z=iX": (Y @ Z, 1j * X),
        "Pauli X": (X, ref.PAULI["X"]), "Pauli Y": (Y, ref.PAULI["Y"]), "Pauli Z": (Z, ref.PAULI["Z"]),
        "CNOT is controlled X": (m["CNOT"], ctl(X)), "CZ is controlled Z": (m["CZ"], ctl(Z)),
        "SWAP exchanges qubits": (m["SWAP"], e4[[0, 2, 1, 3]]),
        "CNOT = controlled gate": (to_np(C.X.controlled(1).matrix), m["CNOT"]),
        "CZ = controlled gate": (to_np(C.Z.controlled(1).matrix), m["CZ"]),
    }
    for _ in range(4):
        a, b = (ref.to_np(np.array(x)) for x in (gen.rand_unitary(ctx.np, 2), gen.rand_unitary(ctx.np, 2)))
        rel[f"SWAP conjugation {_}"] = (m["SWAP"] @ np.kron(a, b) @ m["SWAP"], np.kron(b, a))
    for d in (0, 1, 3.5, -2.0, 100, 1e-3, np.float64(7), sympy.Integer(2), sympy.Symbol("d"), gen.angle(ctx.rng)):
        rel[f"Delay({d}) is the identity"] = (to_np(C.Delay(d).matrix), e2)
    for label, (got, want) in rel.items():
        ctx.close(got, want, label, TOL)
        ctx.ev("relations")
    ctx.nontrivial("relations", ctx.index)
    ctx.sample(sorted(rel))


def case_symbolic(ctx):
    """Symbolic matrices agree, at sampled values, with numeric ones and stay unitary."""
    rng = ctx.rng
    name = rng.choice([n for n, (k, _) in BUILTINS.items() if k])
    k = BUILTINS[name][0]
    syms = gen.symbols(rng, k)
    g = _gate(name, tuple(syms))
    m = g.matrix
    for _ in range(4):
        values = {s: gen.angle(rng) for s in syms}
        got = ref.subs_np(m, values)
        d = 2**g.num_qubits
        ctx.close(got @ got.conj().T, np.eye(d), f"{name}: symbolic matrix not unitary", TOL, values=values)
        if g.is_hermitian:
            ctx.close(got, got.conj().T, f"{name}: symbolic matrix not self-adjoint", TOL, values=values)
        if name in GROUPS:
            other = {s: gen.angle(rng) for s in syms}
            both = {s: values[s] + other[s] for s in syms}
            ctx.close(got @ ref.subs_np(m, other), ref.subs_np(m, both), f"{name}: symbolic group law", TOL,
                      values=values, other=other)
        ctx.ev("symbolic_evaluations")
        ctx.nontrivial("sym", name, tuple(values.values()))
    ctx.check(set(g.free_symbols) == set(syms), "free symbols of the gate", gate=g)
    ctx.sample(g)


WORKLOADS = [
    dict(name="grid", case=case_grid, quick=81, thorough=81, fixed=True),
    dict(name="relations", case=case_relations, quick=4, thorough=40, fixed=True),
    dict(name="random", case=case_random, quick=4000, thorough=60000),
    dict(name="group", case=case_group, quick=250, thorough=4000),
    dict(name="symbolic", case=case_symbolic, quick=250, thorough=4000),
]
REQUIRED_EVENTS = ("matrices", "group_laws", "relations", "symbolic_evaluations", "hermitian_flagged")
