"""C16 - time-evolution circuits implement exp(-i t H) term by term, and its derivative."""
import itertools
import warnings

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from orquestra.quantum.operators import PauliSum, PauliTerm

from vmon import gen, lits, ref
from vmon.core import hold_results

hold_results(globals(), "time_evolution", "time_evolution_derivatives", "time_evolution_for_term")

PROPERTY = "C16"
RULE = (
    "every Pauli string on up to three qubits (identity included) placed on ordered and sparse qubits, and strings of up to "
    "eight letters, with real coefficients of many magnitudes and Python/numpy types and times of every sign, type, magnitude "
    "and symbolic form; sums of 0-8 listed terms (duplicates, constants, zero coefficients, non-commuting orders) for 1-9 "
    "(few terms: up to 257) steps; complex coefficients. Oracle: cos/sin closed form of each exponential and their ordered product; the factor-"
    "weighted sum of conj(U_j) (x) U_j equals the product-rule derivative of conj(U) (x) U, which decides all observables and "
    "all initial states at once. Identified by operator, time and steps."
)
ASSUMPTIONS = [
    "an imaginary part of at least 1e-6 is non-negligible and one of at most 1e-12 negligible",
    "constant terms with complex coefficients are not judged",
    "the derivative is taken at numeric times (the signature says float)",
    "matrices are compared at 1e-9 plus 1e-14 times the rotation angle",
]

STRINGS = [s for n in (1, 2, 3) for s in itertools.product("IXYZ", repeat=n)]


def _lib_steps(circ):
    return [(ref.subs_np(op.gate.matrix, {}), tuple(op.qubit_indices)) for op in circ.operations]


def _matrix(circ, qubits):
    """Matrix of the circuit on the listed qubits (a superset of those it touches)."""
    pos = {q: i for i, q in enumerate(qubits)}
    return ref.circuit_matrix([(m, tuple(pos[q] for q in qs)) for m, qs in _lib_steps(circ)], len(qubits))


def _touched(circ):
    return {q for op in circ.operations for q in op.qubit_indices}


def _exp(c, ops, t, qubits):
    pos = {q: i for i, q in enumerate(qubits)}
    if not ops:
        return np.eye(2 ** len(qubits), dtype=complex)
    return ref.expm_pauli(t * c, {pos[q]: p for q, p in ops.items()}, len(qubits))


def _tol(x):
    return 1e-9 + 4e-15 * abs(x)


def _time(rng):
    """(value passed to the library, its number)."""
    r = rng.random()
    v = gen.angle(rng)
    if r < 0.5:
        return v, v
    if r < 0.58:
        k = rng.randint(-7, 7)
        return k, float(k)
    if r < 0.66:
        return np.float64(v), v
    if r < 0.72:
        e = rng.choice([sympy.pi * sympy.Rational(rng.randint(-7, 7), rng.randint(1, 6)), sympy.Rational(rng.randint(-9, 9), 7), sympy.Float(v)])
        return e, float(e)
    if r < 0.76:
        return np.int64(3), 3.0
    return v, v


def _coef(rng):
    """A real coefficient of some type, and its value."""
    c = gen.coefficient(rng, real=True)
    if lits.FLOATS and rng.random() < 0.08:
        c = max(-1e3, min(1e3, rng.choice(lits.FLOATS)))
    r = rng.random()
    if r < 0.5:
        return c, float(c)
    if r < 0.65:
        return complex(c), float(c)
    if r < 0.75:
        return np.float64(c), float(c)
    if r < 0.85:
        return np.complex128(c), float(c)
    if r < 0.9:
        return complex(c, rng.choice([1e-13, -1e-13, 1e-15])), float(c)
    k = rng.randint(-4, 4)
    return k, float(k)


def _term(rng, ops, c):
    items = list(ops.items())
    rng.shuffle(items)
    r = rng.random()
    if r < 0.4:
        return PauliTerm(dict(items), c)
    if r < 0.7:
        return PauliTerm.from_iterable([(p, q) for q, p in items], c)
    if r < 0.8 and items:
        return PauliTerm("*".join(f"{p}{q}" for q, p in items), c)
    return PauliTerm({**dict(items), **{max([0, *ops]) + 1: "I"}}, c)


def _check_term(ctx, ops, term, value, t, tv):
    w = dict(term=term, time=t)
    circ = time_evolution_for_term(term, t)
    ctx.check(isinstance(circ, C.Circuit), "term evolution: type", got=circ, **w)
    ops = {q: p for q, p in ops.items() if p != "I"}
    if not ops:
        ctx.check(len(circ.operations) == 0, "constant term gives operations", got=circ, **w)
        ctx.check(circ.n_qubits == 0, "constant term gives a circuit with qubits", got=circ, **w)
        ctx.ev("constant_terms")
        return circ
    qubits = sorted(_touched(circ) | set(ops))
    if len(qubits) > 10:
        ctx.fail("term evolution acts on unrelated qubits", got=circ, **w)
    want = _exp(value, ops, tv, qubits)
    tol = _tol(value * tv)
    ctx.close(_matrix(circ, qubits), want, "term evolution is not exp(-i t c P)", tol, **w)
    n = circ.n_qubits
    if n <= 6 and max(ops) < n:
        full = list(range(n))
        ctx.close(ref.to_np(circ.to_unitary()), _exp(value, ops, tv, full), "unitary of the term evolution is not exp(-i t c P)", tol, **w)
        ctx.ev("unitaries")
    ctx.ev("terms")
    return circ


def every_string(ctx):
    """One string per case: many placements, coefficients and times."""
    rng = ctx.rng
    s = STRINGS[ctx.index % len(STRINGS)]
    n = len(s)
    for k in range(6):
        if k == 0:
            where = list(range(n))
        elif k == 1:
            where = list(range(n))[::-1]
        elif k == 2:
            where = rng.sample(range(6), n)
        elif k == 3:
            where = rng.sample(range(40), n)
        else:
            where = rng.sample(range(4), n)
        ops = {q: p for q, p in zip(where, s)}
        c, value = _coef(rng)
        t, tv = _time(rng)
        term = _term(rng, ops, c)
        _check_term(ctx, ops, term, value, t, tv)
        ctx.nontrivial(repr(term), repr(t))
    ctx.sample("string", "".join(s))


def long_strings(ctx):
    rng = ctx.rng
    w = rng.choice([4, 4, 5, 5, 6, 7, 8] if ctx.thorough else [4, 4, 5, 5, 6, 7])
    where = rng.sample(range(rng.choice([w, w + 1, 12, 30])) if w <= 12 else range(30), w) if rng.random() < 0.8 else list(range(w))
    ops = {q: rng.choice(rng.choice(["XYZ", "XYZ", "Z", "XY"])) for q in where}
    c, value = _coef(rng)
    t, tv = _time(rng)
    _check_term(ctx, ops, _term(rng, ops, c), value, t, tv)
    ctx.nontrivial(repr(ops), repr(c), repr(t))


def symbolic_time(ctx):
    """Evolution for a symbolic time, bound, equals the evolution for the number."""
    rng = ctx.rng
    syms = gen.symbols(rng, 2)
    t = gen.expression(rng, syms, 1)
    values = {s: rng.choice([rng.uniform(-3, 3), float(rng.randint(-3, 3))]) for s in syms}
    tv = ref.eval_expr(t, values).real
    n = rng.randint(1, 3)
    h, terms = _hamiltonian(rng, n, rng.choice([1, 1, 2, 3]))
    steps = rng.choice([1, 1, 2, 3])
    circ = time_evolution(h, t, n_steps=steps)
    w = dict(hamiltonian=h, time=t, values=values, n_steps=steps)
    bound = circ.bind(values)
    ctx.check(not list(bound.free_symbols), "bound evolution circuit keeps symbols", got=bound, **w)
    want = _product(terms, tv, steps, list(range(n)))
    ctx.close(_matrix(bound, list(range(n))), want, "evolution for a symbolic time differs after binding", 1e-8 + _tol(tv) * _weight(terms), **w)
    got = ref.circuit_matrix([(ref.subs_np(op.gate.matrix, values), tuple(op.qubit_indices)) for op in circ.operations], n)
    ctx.close(got, want, "evolution for a symbolic time differs at a point", 1e-8 + _tol(tv) * _weight(terms), **w)
    for term, (c, ops) in zip(h.terms, terms):
        one = time_evolution_for_term(term, t).bind(values)
        ctx.close(_matrix(one, list(range(n))), _exp(c, ops, tv, list(range(n))), "term evolution for a symbolic time differs after binding",
                  1e-8 + _tol(c * tv), term=term, time=t, values=values)
    ctx.ev("symbolic_times")
    ctx.nontrivial(repr(h), repr(t), repr(values), steps)


def _weight(terms):
    return 1 + sum(abs(c) for c, _ in terms)


def _hamiltonian(rng, n, k, small=False, nonzero=False):
    """A listed sum (or a single term) and its terms as [(coefficient, ops)]."""
    out, terms = [], []
    for _ in range(k):
        r = rng.random()
        if terms and rng.random() < 0.12:
            i = rng.randrange(len(terms))  # one term object listed again
            out.append(out[i])
            terms.append(terms[i])
            continue
        if terms and r < 0.2:
            ops = dict(rng.choice(terms)[1])
        elif r < 0.3:
            ops = {}
        elif r < 0.45:
            ops = {rng.randrange(n): rng.choice("XYZ")}
        else:
            ops = gen.pauli_ops(rng, n)
        c, value = _coef(rng)
        if small and abs(value) > 20:
            c = value = rng.uniform(-3, 3)
        if nonzero and abs(value) < 1e-7:
            c = value = rng.uniform(0.1, 3)
        out.append(_term(rng, ops, c))
        terms.append((value, ops))
    if k == 1 and rng.random() < 0.5:
        return out[0], terms
    return PauliSum(out), terms


def _product(terms, t, steps, qubits):
    m = np.eye(2 ** len(qubits), dtype=complex)
    for c, ops in terms:
        m = _exp(c, ops, t / steps, qubits) @ m
    return np.linalg.matrix_power(m, steps)


def _n_steps(rng, terms=9):
    k = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
    if lits.INTS and rng.random() < 0.06:
        k = max(1, min(12, rng.choice(lits.INTS)))
    if terms <= 4 and rng.random() < 0.12:
        k = rng.choice([16, 17, 31, 32, 33, 50, rng.randint(10, 64), *lits.ints_in(10, 130)])
        if terms <= 2 and rng.random() < 0.2:
            k = rng.choice([100, 128, 129, 200, 257])
    return k


def sums(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 4])
    k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8])
    h, terms = _hamiltonian(rng, n, k)
    steps = _n_steps(rng, len(terms))
    if steps > 9:
        ctx.ev("many_steps")
    t, tv = _time(rng)
    w = dict(hamiltonian=h, time=t, n_steps=steps)
    if steps == 1 and rng.random() < 0.5:
        circ = time_evolution(h, t)
    elif rng.random() < 0.3:
        circ = time_evolution(h, t, "Trotter", steps)
    else:
        circ = time_evolution(h, t, n_steps=rng.choice([steps, np.int64(steps)]) if rng.random() < 0.2 else steps)
    touched = _touched(circ)
    ctx.check(not touched or max(touched) < n, "evolution acts on unrelated qubits", got=circ, **w)
    qubits = list(range(n))
    want = _product(terms, tv, steps, qubits)
    tol = _tol(tv * sum(abs(c) for c, _ in terms)) * (1 + steps)
    ctx.close(_matrix(circ, qubits), want, "evolution is not the ordered product over terms and steps", tol, **w)
    if circ.operations:
        m = circ.n_qubits
        ctx.close(ref.to_np(circ.to_unitary()), _product(terms, tv, steps, list(range(m))), "unitary of the evolution is not the ordered product", tol, **w)
        psi = gen.state(ctx, m)
        from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

        if m <= 3 and len(circ.operations) < 30:
            wf = SymbolicSimulator().get_wavefunction(circ, psi)
            ctx.close(np.asarray(wf.amplitudes).ravel(), _product(terms, tv, steps, list(range(m))) @ psi, "evolved state", tol + 1e-8, **w)
            ctx.ev("evolved_states")
    elif any(ops for _, ops in terms):
        pass  # zero coefficients may legitimately evolve to nothing
    # the per-term circuits are those of time_evolution_for_term
    ctx.ev("sums")
    if len({repr(sorted(o.items())) for _, o in terms}) > 1:
        ctx.ev("multi_term_sums")
    ctx.nontrivial(repr(h), repr(t), steps)
    ctx.sample("H =", h, "t =", t, "steps =", steps, "operations =", len(circ.operations))


def imaginary(ctx):
    """Coefficients with a non-negligible imaginary part are rejected."""
    rng = ctx.rng
    n = rng.randint(1, 4)
    ops = gen.pauli_ops(rng, n)
    if not ops:
        ops = {rng.randrange(n): rng.choice("XYZ")}
    re = rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3), rng.uniform(-1e-3, 1e-3), 1e4])
    im = rng.choice([-1, 1]) * rng.choice([1, 0.5, 2, 1e-6, 1e-5, 1e-3, 1e-2, 3e4, rng.uniform(1e-6, 5), abs(re) or 1.0])
    c = complex(re, im)
    if rng.random() < 0.3:
        c = np.complex128(c)
    bad = _term(rng, ops, c)
    t, tv = _time(rng)
    if rng.random() < 0.1:
        t = rng.choice([0, 0.0, sympy.Symbol("t"), 1])
    ctx.raises((Exception,), lambda: time_evolution_for_term(bad, t), "imaginary coefficient accepted", term=bad, time=t)
    h, terms = _hamiltonian(rng, n, rng.choice([0, 1, 2, 3]), nonzero=True)
    listed = list(h.terms)
    listed.insert(rng.randint(0, len(listed)), bad)
    h = PauliSum(listed) if len(listed) > 1 or rng.random() < 0.5 else bad
    steps = rng.choice([1, 1, 2, 3])
    ctx.raises((Exception,), lambda: time_evolution(h, t, n_steps=steps), "imaginary coefficient accepted in a sum", hamiltonian=h, time=t, n_steps=steps)
    # negligible imaginary parts are accepted, and evolve by the real part
    c = complex(rng.uniform(-2, 2), rng.choice([-1, 1]) * rng.choice([1e-12, 1e-13, 1e-16, 1e-300, 0.0]))
    ok = _term(rng, ops, c)
    if not isinstance(t, sympy.Expr):
        _check_term(ctx, ops, ok, c.real, t, float(t))
    ctx.ev("imaginary_rejected")
    ctx.nontrivial(repr(bad), repr(t), repr(h))


def derivatives(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3])
    k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    h, terms = _hamiltonian(rng, n, k, small=True)
    steps = _n_steps(rng)
    if n == 3:
        steps = min(steps, 5)
    elif n == 1 and len(terms) <= 2 and rng.random() < 0.05:
        steps = rng.choice([16, 17, 33])
    t = rng.choice([gen.angle(rng), gen.angle(rng), 0.0, 1, np.float64(0.7), rng.randint(-3, 3)])
    tv = float(t)
    if abs(tv) > 100:
        t = tv = rng.uniform(-10, 10)
    w = dict(hamiltonian=h, time=t, n_steps=steps)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if steps == 1 and rng.random() < 0.5:
            circs, factors = time_evolution_derivatives(h, t)
        else:
            circs, factors = time_evolution_derivatives(h, t, n_steps=steps)
    ctx.check(len(circs) == len(factors), "derivative: as many factors as circuits", circuits=len(circs), factors=len(factors), **w)
    ctx.check(all(isinstance(c, C.Circuit) for c in circs), "derivative: circuits expected", **w)
    qubits = list(range(n))
    d = 2**n
    total = np.zeros((d * d, d * d), dtype=complex)
    for c, f in zip(circs, factors):
        touched = _touched(c)
        ctx.check(not touched or max(touched) < n, "derivative acts on unrelated qubits", got=c, **w)
        u = _matrix(c, qubits)
        total += f * np.kron(u.conj(), u)
    # reference: product rule
    gates = [(c, ops) for _ in range(steps) for c, ops in terms]
    mats = [_exp(c, ops, tv / steps, qubits) for c, ops in gates]
    prefix = [np.eye(d, dtype=complex)]
    for m in mats:
        prefix.append(m @ prefix[-1])
    u = prefix[-1]
    du = np.zeros((d, d), dtype=complex)
    suffix = np.eye(d, dtype=complex)
    for i in range(len(gates) - 1, -1, -1):
        c, ops = gates[i]
        if ops:
            du += suffix @ (-1j * c / steps * ref.pauli_matrix(ops, n)) @ prefix[i + 1]
        suffix = suffix @ mats[i]
    want = np.kron(du.conj(), u) + np.kron(u.conj(), du)
    scale = _weight(terms)
    tol = 1e-8 * scale + 1e-13 * scale**2 * (1 + abs(tv)) * steps
    ctx.close(total, want, "derivative circuits do not sum to the derivative of the expectation", tol, **w)
    # the same through the expectation of one observable, against the evolution circuit itself
    obs = ctx.np.normal(size=(d, d)) + 1j * ctx.np.normal(size=(d, d))
    obs = obs + obs.conj().T
    psi = gen.state(ctx, n)

    def expectation(circ):
        v = _matrix(circ, qubits) @ psi
        return np.vdot(v, obs @ v).real

    eps = 1e-4 / max(1.0, scale)
    numeric = (
        8 * (expectation(time_evolution(h, tv + eps, n_steps=steps)) - expectation(time_evolution(h, tv - eps, n_steps=steps)))
        - (expectation(time_evolution(h, tv + 2 * eps, n_steps=steps)) - expectation(time_evolution(h, tv - 2 * eps, n_steps=steps)))
    ) / (12 * eps)
    got = sum(f * expectation(c) for c, f in zip(circs, factors))
    ctx.close(got, numeric, "derivative of an observable's expectation (finite difference of the evolution circuit)", 1e-6 * scale * d * max(1.0, scale) , observable=obs, **w)
    ctx.ev("derivatives")
    if steps > 1 and any(o for _, o in terms):
        ctx.ev("multi_step_derivatives")
    ctx.nontrivial(repr(h), repr(t), steps)
    ctx.sample("dH", h, "t =", t, "steps =", steps, "circuits =", len(circs))


REQUIRED_EVENTS = ("terms", "constant_terms", "unitaries", "sums", "multi_term_sums", "symbolic_times", "imaginary_rejected", "derivatives", "multi_step_derivatives")
QUICK_SCALE = 1.3
WORKLOADS = [
    dict(name="every_string", case=every_string, quick=2 * len(STRINGS), thorough=60 * len(STRINGS)),
    dict(name="long_strings", case=long_strings, quick=120, thorough=3000),
    dict(name="symbolic_time", case=symbolic_time, quick=120, thorough=3000),
    dict(name="sums", case=sums, quick=400, thorough=10000),
    dict(name="imaginary", case=imaginary, quick=300, thorough=5000),
    dict(name="derivatives", case=derivatives, quick=250, thorough=8000),
]
