"""C09 - operator-to-matrix conversions agree with the operator's definition."""
import itertools

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from orquestra.quantum.operators import (
    PauliSum, PauliTerm, expectation, get_expectation_value, get_sparse_operator, hermitian_conjugated, is_hermitian,
    reverse_qubit_order,
)
from orquestra.quantum.operators._utils import get_pauliop_from_matrix
from orquestra.quantum.wavefunction import Wavefunction

from vmon import gen, lits, ref
from vmon.core import hold_results

hold_results(
    globals(), "get_sparse_operator", "hermitian_conjugated", "reverse_qubit_order", "get_pauliop_from_matrix",
)

PROPERTY = "C09"
RULE = (
    "all Pauli strings on up to 3 qubits at every width up to 4, plus random terms/sums (gaps, constants, duplicates, "
    "cancelling and zero coefficients, complex coefficients, the empty sum) on 0-10 qubits with padding; matrices of "
    "size 1..16 (dense, sparse, integer, Hermitian, single-entry, zero, many magnitudes) through the Pauli expansion; "
    "states dense/sparse/column-shaped/density. Oracle: own Kronecker products, own bit-reversal permutation, own trace "
    "formula, explicit quadratic forms. Identified by operator (or matrix) and width; "
    "wide registers (8-12 qubits) with terms of one kind of operators or on all qubits, tiny coefficients, long sums."
)
ASSUMPTIONS = [
    "coefficients below 1e-8 may be dropped by the library (tolerances allow for it)",
    "Hermiticity is asserted for simplified operators with imaginary parts exactly zero or above 1e-4 of the coefficient",
]


def _dense(s):
    return np.asarray(s.todense(), dtype=complex)


def _size(op):
    return 1 + sum(abs(c) for c, _ in ref.lib_terms(op))


def _width(op):
    return max([0] + [q + 1 for _, ops in ref.lib_terms(op) for q in ops])


def _want(op, n):
    return ref.sum_matrix(ref.lib_terms(op), n)


def _tol(op):
    return 1e-9 * _size(op)


def _check_sparse(ctx, op, n, **w):
    got = get_sparse_operator(op, n) if n is not None else get_sparse_operator(op)
    n = _width(op) if n is None else n
    ctx.check(scipy.sparse.issparse(got) and got.shape == (2**n, 2**n), "shape of the sparse operator", shape=got.shape, op=op, n=n, **w)
    d = _dense(got)
    ctx.close(d, _want(op, n), "sparse operator", _tol(op), op=op, n=n, **w)
    ctx.ev("sparse_operators")
    if n > _width(op):
        ctx.ev("padded_operators")
    return d


def case_strings(ctx):
    """Exhaustive: every Pauli string on up to three qubits at every width."""
    i = ctx.index
    strings = [s for k in range(4) for s in itertools.product("IXYZ", repeat=k)]
    s = strings[i % len(strings)]
    ops = {q: p for q, p in enumerate(s) if p != "I"}
    c = gen.coefficient(ctx.rng)
    t = PauliTerm(dict(ops), c)
    for n in [None] + list(range(_width(t), max(_width(t), 3) + 2)):
        _check_sparse(ctx, t, n)
        _check_sparse(ctx, PauliSum([t]), n)
    h = hermitian_conjugated(t)
    ctx.close(_dense(get_sparse_operator(h, 4)), _want(t, 4).conj().T, "conjugate of a term", _tol(t), op=t)
    for n in range(_width(t), 5):
        r = reverse_qubit_order(t, n)
        p = ref.bitrev_perm(n)
        ctx.close(_want(r, n), _want(t, n)[np.ix_(p, p)], "reversed term", _tol(t), op=t, n=n)
    ctx.nontrivial(s, c)


def _op(ctx, n):
    rng = ctx.rng
    r = rng.random()
    if r < 0.2:
        return gen.term(rng, n)
    if r < 0.3:
        t = gen.term(rng, n)
        k = rng.randint(1, 3)
        return PauliSum([t, t.copy(new_coefficient=-t.coefficient)][: k] + [gen.term(rng, n) for _ in range(k - 1)])
    if r < 0.35:
        return rng.choice([PauliSum(), PauliTerm({}, gen.coefficient(rng)), PauliSum([PauliTerm({}, 2.5)]), PauliSum([PauliTerm({}, 0.0)])])
    if r < 0.45:  # one far qubit
        q = n - 1
        return PauliSum([PauliTerm({q: rng.choice("XYZ")}, gen.coefficient(rng)), PauliTerm({0: "Y"} if n > 1 else {}, 1j)])
    return gen.pauli_sum(rng, n)


def case_sparse(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 7])
    op = _op(ctx, n)
    before = repr(op)
    w = _width(op)
    for m in {None, w, n, rng.randint(w, min(w + 3, 8)) if w <= 8 else w}:
        if m is None or m >= w:
            _check_sparse(ctx, op, m)
    ctx.check(repr(op) == before, "get_sparse_operator changed its argument", op=op, before=before)
    if _want(op, w).any():
        ctx.nontrivial(before, n)
        ctx.sample(op, n)


def _apply_terms(terms, v, n):
    out = np.zeros(2**n, dtype=complex)
    for c, ops in terms:
        u = v.astype(complex)
        for q, p in ops.items():
            u = ref.apply_matrix(u, ref.PAULI[p], (q,), n)
        out += c * u
    return out


def _wide_term(rng, n):
    """Mixed terms, ones of a single kind of operators (Ising, X-type, ...) and ones on all or nearly all the qubits."""
    r = rng.random()
    if r < 0.35:
        return gen.term(rng, rng.choice([n, 3, n - 2]), max_weight=6)
    kinds = "XYZ" if r < 0.5 else rng.choice(["Z", "Z", "X", "Y", "XZ", "XY"])
    qs = rng.sample(range(n), rng.choice([1, 2, 3, n // 2, n - 1, n]))
    return PauliTerm({q: rng.choice(kinds) for q in qs}, gen.coefficient(rng))


def case_wide(ctx):
    """Larger registers, through products with vectors."""
    rng = ctx.rng
    n = rng.choice([8, 9, 10, 11, 12])
    op = PauliSum([_wide_term(rng, n) for _ in range(rng.randint(1, 4))])
    m = get_sparse_operator(op, n)
    ctx.check(m.shape == (2**n, 2**n), "shape", op=op, n=n)
    terms = ref.lib_terms(op)
    v = gen.state(ctx, n, "haar")
    tol = _tol(op)
    want = _apply_terms(terms, v, n)
    ctx.close(m @ v, want, "wide operator on a vector", tol, op=op, n=n)
    j = rng.randrange(2**n)
    e = np.zeros(2**n)
    e[j] = 1
    ctx.close(np.asarray(m.getcol(j).todense()).ravel(), _apply_terms(terms, e, n), "column of a wide operator", tol, op=op, n=n, column=j)
    ev = get_expectation_value(op, Wavefunction(v))
    ctx.close(ev, np.vdot(v, want), "expectation on a wide register", tol, op=op)
    ctx.ev("wide_operators")
    ctx.nontrivial(repr(op), n)


def case_hermitian(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    op = _op(ctx, n)
    h = hermitian_conjugated(op)
    before = repr(op)
    w = max(_width(op), n)
    m = _want(op, w)
    ctx.close(_want(h, w), m.conj().T, "hermitian_conjugated", _tol(op), op=op, conj=h)
    ctx.close(_want(hermitian_conjugated(h), w), m, "conjugated twice", _tol(op), op=op)
    ctx.check(repr(op) == before, "hermitian_conjugated changed its argument", op=op)
    d, s = m, scipy.sparse.csc_matrix(m)
    ctx.close(hermitian_conjugated(d), m.conj().T, "conjugate of an array", 1e-12, op=op)
    ctx.close(_dense(hermitian_conjugated(s)), m.conj().T, "conjugate of a sparse matrix", 1e-12, op=op)
    ctx.ev("conjugates", 4)
    # Hermiticity of a simplified operator
    keys = list({frozenset(gen.pauli_ops(rng, n).items()) for _ in range(rng.randint(1, 5))})
    kind = rng.random()
    terms = []
    for k in keys:
        c = rng.choice([-1, 1]) * rng.choice([rng.uniform(0.1, 3), rng.randint(1, 4), 10 ** rng.uniform(-3, 3)])
        terms.append([complex(c) if rng.random() < 0.5 else c, dict(k)])
    herm = True
    if kind < 0.5:
        herm = False
        for i in rng.sample(range(len(terms)), rng.randint(1, len(terms))):
            c = complex(terms[i][0])
            terms[i][0] = rng.choice([c * 1j, c + 1j * abs(c) * 10 ** rng.uniform(-3, 0), 1j * c.real - c.real])
    if len(terms) == 1 and rng.random() < 0.5:
        op = PauliTerm(terms[0][1], terms[0][0])
    else:
        op = PauliSum([PauliTerm(o, c) for c, o in terms])
        if rng.random() < 0.5:
            op = op.simplify()
    m = _want(op, n)
    ctx.check(bool(np.allclose(m, m.conj().T, rtol=0, atol=1e-9)) == herm, "harness: hermiticity", op=op)
    got = is_hermitian(op)
    ctx.check(bool(got) == herm, "is_hermitian of an operator", op=op, verdict=got, want=herm)
    ctx.check(bool(is_hermitian(m)) == herm, "is_hermitian of its array", op=op, want=herm)
    ctx.check(bool(is_hermitian(get_sparse_operator(op, n))) == herm, "is_hermitian of its sparse matrix", op=op, want=herm)
    ctx.ev("hermitian_yes" if herm else "hermitian_no")
    ctx.nontrivial(repr(op))
    ctx.sample(op, herm)


def _matrix(ctx, n):
    rng, npr = ctx.rng, ctx.np
    d = 2**n
    kind = rng.choice(["complex", "complex", "real", "int", "herm", "sparse", "single", "zero", "unitary", "scaled", "diag", "pauli"])
    if kind == "real":
        return npr.normal(size=(d, d)), kind
    if kind == "int":
        return npr.integers(-4, 5, size=(d, d)), kind
    m = npr.normal(size=(d, d)) + 1j * npr.normal(size=(d, d))
    if kind == "herm":
        m = m + m.conj().T
    elif kind == "sparse":
        m = m * (npr.random((d, d)) < 0.25)
    elif kind == "single":
        m = np.zeros((d, d), dtype=complex)
        m[rng.randrange(d), rng.randrange(d)] = gen.coefficient(rng) or 1
    elif kind == "zero":
        m = np.zeros((d, d))
    elif kind == "unitary":
        m = gen.rand_unitary(npr, d)
    elif kind == "scaled":
        m = m * 10 ** rng.uniform(-5, 9)
    elif kind == "diag":
        m = np.diag(npr.normal(size=d))
    elif kind == "pauli":
        m = ref.pauli_matrix(gen.pauli_ops(rng, n), n) * rng.choice([1, -2, 1j, 0.5])
    return m, kind


def case_expand(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4 if ctx.thorough or rng.random() < 0.2 else 2])
    if ctx.thorough and rng.random() < 0.01:
        n = 5
    m, kind = _matrix(ctx, n)
    r = rng.random()
    given = m if r < 0.3 else [list(r) for r in m.tolist()]
    if 0.3 <= r < 0.55:  # other layouts and number types of the same matrix
        given = rng.choice([
            np.asfortranarray(m), m.T.copy().T, np.repeat(np.repeat(m, 2, 0), 2, 1)[::2, ::2], [tuple(x) for x in m.tolist()],
            tuple(tuple(x) for x in m.tolist()), m.astype(object), [np.array(x) for x in m]])
        if kind == "int" and rng.random() < 0.5:
            given = m.astype(rng.choice([np.int8, np.int16, np.float32, np.complex64]))
    if isinstance(given, np.ndarray) and rng.random() < 0.3:
        given.flags.writeable = False
    op = get_pauliop_from_matrix(given)
    tol = 4**n * 2e-8 + 1e-9 * float(np.max(np.abs(m)))
    w = dict(matrix=m, kind=kind, op=op)
    ctx.check(isinstance(op, PauliSum) and _width(op) <= n, "width of the expansion", **w)
    ctx.close(_want(op, n), m, "expansion denotes another matrix", tol, **w)
    ctx.close(_dense(get_sparse_operator(op, n)), m, "expansion converted back", tol, **w)
    got = ref.canon(ref.lib_terms(op))
    for s in rng.sample(list(itertools.product("IXYZ", repeat=n)), min(4**n, 20)):
        ops = {q: p for q, p in enumerate(s) if p != "I"}
        c = np.trace(ref.pauli_matrix(ops, n) @ m) / 2**n
        ctx.close(got.get(frozenset(ops.items()), 0), c, "coefficient of the expansion", 2e-8 + 1e-9 * abs(c), pauli=s, **w)
    ctx.ev("expansions")
    ctx.ev(f"matrix_{kind}")
    if m.any():
        ctx.nontrivial(m.tobytes(), n)
        ctx.sample(kind, n, m[0])


def case_roundtrip(ctx):
    """operator -> matrix -> operator."""
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3])
    op = gen.pauli_sum(rng, n, rng.randint(1, 5))
    back = get_pauliop_from_matrix(_dense(get_sparse_operator(op, n)).tolist())
    a, b = ref.canon(ref.lib_terms(op)), ref.canon(ref.lib_terms(back))
    for k in set(a) | set(b):
        ctx.close(b.get(k, 0), a.get(k, 0), "coefficient after operator -> matrix -> operator", 1e-7 + 1e-9 * _size(op), term=sorted(k), op=op, back=back)
    ctx.ev("op_roundtrips")
    ctx.nontrivial(repr(op))


def case_reverse(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5])
    op = _op(ctx, n)
    before = repr(op)
    w = _width(op)
    m = rng.choice([None, w, n, w + rng.randint(0, 2)])
    if m is not None and m < w:
        m = None
    r = reverse_qubit_order(op, m) if m is not None else reverse_qubit_order(op)
    k = w if m is None else m
    p = ref.bitrev_perm(k)
    a = _want(op, k)
    ctx.check(_width(r) <= k, "width of the reversed operator", op=op, reversed=r, n=m)
    ctx.close(_want(r, k), a[np.ix_(p, p)], "reversed operator", _tol(op), op=op, reversed=r, n=m)
    ctx.close(_dense(get_sparse_operator(r, k)), a[np.ix_(p, p)], "sparse reversed operator", _tol(op), op=op, n=m)
    rr = reverse_qubit_order(r, k)
    ctx.close(_want(rr, k), a, "reversed twice", _tol(op), op=op, reversed=r, twice=rr, n=m)
    x, y = ref.canon(ref.lib_terms(op)), ref.canon(ref.lib_terms(rr))
    for key in set(x) | set(y):
        ctx.close(y.get(key, 0), x.get(key, 0), "coefficient after reversing twice", 2e-8 + _tol(op), term=sorted(key), op=op, twice=rr)
    ctx.check(repr(op) == before, "reverse_qubit_order changed its argument", op=op)
    # far wider than any dense matrix
    big = rng.choice([30, 100, 257])
    t = gen.term(rng, big, max_weight=5)
    u = reverse_qubit_order(t, big)
    want = {big - 1 - q: s for q, s in ref.lib_terms(t)[0][1].items()}
    got = ref.canon(ref.lib_terms(u))
    c = complex(t.coefficient)
    ctx.check(all(k == frozenset(want.items()) for k in got) and (got or abs(c) < 1e-7), "wide reversed term", term=t, reversed=u)
    ctx.ev("reversals")
    if k > 1 and a.any():
        ctx.nontrivial(before, m)
        ctx.sample(op, m)


def case_expectation(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5])
    op = _op(ctx, rng.randint(1, n))
    if _width(op) > n:
        return
    psi = gen.state(ctx, n)
    m = _want(op, n)
    want = np.vdot(psi, m @ psi)
    tol = _tol(op) * 10
    wf = Wavefunction(psi)
    w = dict(op=op, state=psi)
    ctx.close(get_expectation_value(op, wf), want, "get_expectation_value", tol, **w)
    p = ref.bitrev_perm(n)
    ctx.close(get_expectation_value(op, wf, reverse_operator=True), np.vdot(psi, m[np.ix_(p, p)] @ psi), "expectation, reversed operator", tol, **w)
    ctx.close(get_expectation_value(op, wf, True), np.vdot(psi[p], m @ psi[p]), "expectation in the reversed state", tol, **w)
    s = get_sparse_operator(op, n)
    ctx.close(expectation(s, psi), want, "expectation of a vector", tol, **w)
    ctx.close(expectation(s, psi.reshape(-1, 1)), want, "expectation of a column", tol, **w)
    rho = scipy.sparse.csc_matrix(np.outer(psi, psi.conj()))
    ctx.close(expectation(s, rho), want, "expectation of a density matrix", tol, **w)
    lin = scipy.sparse.linalg.aslinearoperator(s)
    ctx.close(expectation(lin, psi.astype(complex)), want, "expectation of a linear operator", tol, **w)
    k = rng.randint(1, 3)
    ps = ctx.np.random(k)
    ps /= ps.sum()
    states = [gen.state(ctx, n) for _ in range(k)]
    mix = sum(q * np.outer(v, v.conj()) for q, v in zip(ps, states))
    ctx.close(expectation(s, scipy.sparse.csc_matrix(mix)), np.trace(mix @ m), "expectation of a mixed state", tol, **w)
    ctx.ev("expectations", 8)
    if abs(want) > 1e-9:
        ctx.nontrivial(repr(op), psi.tobytes())
        ctx.sample(op, want)


def case_linear(ctx):
    """The conversion is a homomorphism of the library's own arithmetic."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    a, b = _op(ctx, n), _op(ctx, n)
    c = gen.coefficient(rng)
    ma, mb = (_dense(get_sparse_operator(x, n)) for x in (a, b))
    size = _size(a) * _size(b) * (1 + abs(c))
    tol = 1e-9 * size + 1e-6
    ctx.close(_dense(get_sparse_operator(a + b, n)), ma + mb, "sum", tol, a=a, b=b)
    ctx.close(_dense(get_sparse_operator(a * b, n)), ma @ mb, "product", tol, a=a, b=b)
    ctx.close(_dense(get_sparse_operator(a * c, n)), c * ma, "scaled", tol, a=a, c=c)
    h = hermitian_conjugated(a * b)
    ctx.close(_dense(get_sparse_operator(h, n)), (ma @ mb).conj().T, "conjugate of a product", tol, a=a, b=b)
    ctx.ev("homomorphisms", 4)
    ctx.nontrivial(repr(a), repr(b), c)


def _related(ctx, n, k):
    """k operators over few Pauli strings: equal ones, near-copies, the same term objects in several sums."""
    rng = ctx.rng
    strings = [gen.pauli_ops(rng, n) for _ in range(3)]
    terms = []
    for _ in range(6):
        c = gen.coefficient(rng)
        ops = dict(rng.choice(strings))
        if rng.random() < 0.3 and ops:
            q = rng.choice(list(ops))
            ops[q] = rng.choice("XYZ")
        terms.append(PauliTerm(ops, c))
        terms.append(PauliTerm(dict(ops), rng.choice([-c, c * (1 + 10 ** rng.uniform(-6, -2)), c.conjugate() if isinstance(c, complex) else -c, c + 1])))
    out = []
    for _ in range(k):
        if rng.random() < 0.3:
            out.append(rng.choice(terms))
        else:
            ts = [rng.choice(terms) for _ in range(rng.randint(0, 5))]
            out.append(PauliSum(ts))
    return out


def _bit_rev(psi, n):
    return psi[ref.bitrev_perm(n)]


def case_history(ctx):
    """Conversions of related operators at many widths, in one process, with coefficients edited in between."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    ops = _related(ctx, n, rng.randint(2, 5))
    states = {}
    for _ in range(rng.randint(6, 14)):
        op = rng.choice(ops)
        w = _width(op)
        m = rng.choice([None, n, n, w, n + 1])
        r = rng.random()
        if r < 0.1:
            t = rng.choice(op.terms) if op.terms else None
            if t is not None:
                t.coefficient = rng.choice([gen.coefficient(rng), -t.coefficient, 0.0, t.coefficient * 2])
                ctx.ev("coefficients_edited")
            continue
        if r < 0.5:
            _check_sparse(ctx, op, m)
        elif r < 0.6:
            ctx.close(_want(hermitian_conjugated(op), n), _want(op, n).conj().T, "conjugate within a history", _tol(op), op=op)
        elif r < 0.75:
            k = rng.choice([n, n + 1])
            p = ref.bitrev_perm(k)
            ctx.close(_want(reverse_qubit_order(op, k), k), _want(op, k)[np.ix_(p, p)], "reversal within a history", _tol(op), op=op, n=k)
        else:
            if n not in states or rng.random() < 0.3:
                psi = gen.state(ctx, n).astype(complex)
                states[n] = (psi, Wavefunction(psi.copy()))
            psi, wf = states[n]
            if rng.random() < 0.3:  # the state is edited in place: a phase on one amplitude
                j = rng.randrange(2**n)
                v = complex(psi[j]) * rng.choice([1j, -1, 1])
                wf[j] = v
                psi[j] = v
                ctx.ev("states_edited")
            rev = rng.random() < 0.4
            phi = _bit_rev(psi, n) if rev else psi
            ctx.close(get_expectation_value(op, wf, rev), np.vdot(phi, _want(op, n) @ phi), "expectation within a history", _tol(op) * 10, op=op, state=psi, reverse=rev)
        ctx.ev("history_steps")
    ctx.nontrivial([repr(o) for o in ops])


def case_tiny(ctx):
    """Terms far smaller than their neighbours but above what may be dropped."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    strings = list({frozenset(gen.pauli_ops(rng, n).items()) for _ in range(rng.randint(1, 5))})
    terms = []
    for s in strings:
        m = 10 ** rng.uniform(-7, -2) if rng.random() < 0.6 else rng.uniform(0.1, 3)
        c = m * rng.choice([1, -1, 1j, -1j, rng.choice([1, -1]) + 0.5j])
        terms.append((c, dict(s)))
    op = PauliSum([PauliTerm(dict(o), c) for c, o in terms])
    if len(terms) == 1 and rng.random() < 0.5:
        op = op.terms[0]
    w = dict(op=op, n=n)
    m = _want(op, n)
    tol = 1e-11 * _size(op)

    def same(got, want, what):
        for c, o in want:
            k = frozenset(o.items())
            ctx.close(got.get(k, 0), c, what, 1e-6 * abs(c) + 1e-13, term=sorted(k), **w)
        ctx.check(all(abs(got[k]) < 1e-12 for k in got if k not in {frozenset(o.items()) for _, o in want}), f"{what}: a term of its own", got=got, **w)

    ctx.close(_dense(get_sparse_operator(op, n)), m, "sparse operator with tiny terms", tol, **w)
    r = reverse_qubit_order(op, n)
    same(ref.canon(ref.lib_terms(r)), [(c, {n - 1 - q: p for q, p in o.items()}) for c, o in terms], "coefficient after a reversal")
    h = hermitian_conjugated(op)
    same(ref.canon(ref.lib_terms(h)), [(complex(c).conjugate(), o) for c, o in terms], "coefficient after conjugation")
    # exact amplitudes keep rounding far below the terms in question
    psi = rng.choice([gen.state(ctx, n, "haar"), gen.state(ctx, n, "haar"), np.eye(2**n)[rng.randrange(2**n)]]).astype(complex)
    ctx.close(get_expectation_value(op, Wavefunction(psi)), np.vdot(psi, m @ psi), "expectation of tiny terms", tol, state=psi, **w)
    p = ref.bitrev_perm(n)
    ctx.close(get_expectation_value(op, Wavefunction(psi), True), np.vdot(psi[p], m @ psi[p]), "expectation of tiny terms, reversed", tol, state=psi, **w)
    e = get_pauliop_from_matrix(m)
    got = ref.canon(ref.lib_terms(e))
    for c, o in terms:
        if abs(c) > 1e-7:
            ctx.close(got.get(frozenset(o.items()), 0), c, "tiny coefficient of the expansion", 1e-13 * _size(op) + 1e-6 * abs(c), term=o, **w)
    ctx.ev("tiny_terms")
    ctx.nontrivial(repr(op), n)


def case_span(ctx):
    """Coefficients many orders of magnitude apart, judged entry by entry."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    strings = list({frozenset(gen.pauli_ops(rng, n).items()) for _ in range(rng.randint(2, 6))})
    terms = [(10 ** rng.uniform(-6, 15) * rng.choice([1, -1, 1j, -1j, 0.6 - 0.8j]), dict(s)) for s in strings]
    op = PauliSum([PauliTerm(dict(o), c) for c, o in terms])
    w = dict(op=op, n=n)
    m = _want(op, n)
    # magnitude of what adds up to each of the entries
    bound = sum(abs(c) * np.abs(ref.sum_matrix([(1.0, o)], n)) for c, o in terms)

    def close(got, want, bound, what):
        ctx.check(np.all(np.abs(got - want) <= 1e-12 * bound), what, got=got, want=want, **w)

    close(_dense(get_sparse_operator(op, n)), m, bound, "sparse operator of terms of various magnitudes")
    p = ref.bitrev_perm(n)
    close(_want(reverse_qubit_order(op, n), n), m[np.ix_(p, p)], bound[np.ix_(p, p)], "reversal of terms of various magnitudes")
    close(_want(hermitian_conjugated(op), n), m.conj().T, bound.T, "conjugate of terms of various magnitudes")
    psi = rng.choice([gen.state(ctx, n, "haar"), np.eye(2**n)[rng.randrange(2**n)]]).astype(complex)
    close(get_expectation_value(op, Wavefunction(psi)), np.vdot(psi, m @ psi), np.vdot(np.abs(psi), bound @ np.abs(psi)).real, "expectation of terms of various magnitudes")
    e = ref.canon(ref.lib_terms(get_pauliop_from_matrix(m)))
    for c, o in terms:
        if abs(c) > 1e-7:
            x = sum(abs(d) for d, q in terms if {k for k, v in q.items() if v != "Z"} == {k for k, v in o.items() if v != "Z"})
            ctx.close(e.get(frozenset(o.items()), 0), c, "coefficient of the expansion among various magnitudes", 1e-12 * x, term=o, **w)
    ctx.ev("spanning_sums")
    ctx.nontrivial(repr(op), n)


def case_many(ctx):
    """Sums of many terms."""
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 5, 6])
    k = rng.choice([20, 33, 65, 100, 129, 256, 257, 300] + lits.ints_in(5, 600))
    real = rng.random() < 0.3
    letters = rng.choice(["XYZ", "XYZ", "XZ", "Z"])
    op = PauliSum([PauliTerm(gen.pauli_ops(rng, n, letters=letters), gen.coefficient(rng, real=real)) for _ in range(k)])
    if rng.random() < 0.5:  # all alike but a few, anywhere
        odd = set(rng.sample(range(k), rng.randint(1, 2))) | ({k - 1} if rng.random() < 0.5 else set())
        op = PauliSum([PauliTerm(gen.pauli_ops(rng, n, letters=letters), rng.uniform(-2, 2) * (1j if i in odd else 1)) for i in range(k)])
        real = False
    m = _want(op, n)
    _check_sparse(ctx, op, rng.choice([n, n, n + 1]))
    tol = _tol(op)
    ctx.close(_want(hermitian_conjugated(op), n), m.conj().T, "conjugate of a long sum", tol, op=op)
    p = ref.bitrev_perm(n)
    ctx.close(_want(reverse_qubit_order(op, n), n), m[np.ix_(p, p)], "reversal of a long sum", tol + 1e-8 * k, op=op)
    psi = gen.state(ctx, n)
    ctx.close(get_expectation_value(op, Wavefunction(psi)), np.vdot(psi, m @ psi), "expectation of a long sum", tol * 10, op=op, state=psi)
    back = op.simplify()
    ctx.close(_dense(get_sparse_operator(back, n)), m, "matrix of a simplified long sum", tol + 1e-8 * k, op=op)
    if real:
        ctx.check(bool(is_hermitian(back)), "a real combination of Pauli strings is not Hermitian", op=back)
    elif np.max(np.abs(m - m.conj().T)) > 1e-2 * max(1.0, np.max(np.abs(m))):
        ctx.check(not is_hermitian(back), "a non-Hermitian long sum passes for Hermitian", op=back)
    ctx.ev("long_sums")
    ctx.nontrivial(repr(op), n)
    ctx.sample(f"{k} terms on {n} qubits", op.terms[:3])


QUICK_SCALE = 2
WORKLOADS = [
    dict(name="history", case=case_history, quick=400, thorough=10000),
    dict(name="many", case=case_many, quick=60, thorough=1200),
    dict(name="span", case=case_span, quick=150, thorough=4000),
    dict(name="tiny", case=case_tiny, quick=300, thorough=6000),
    dict(name="strings", case=case_strings, quick=85, thorough=85 * 6, fixed=True),
    dict(name="sparse", case=case_sparse, quick=1000, thorough=20000),
    dict(name="wide", case=case_wide, quick=60, thorough=800),
    dict(name="hermitian", case=case_hermitian, quick=800, thorough=16000),
    dict(name="expand", case=case_expand, quick=500, thorough=8000),
    dict(name="roundtrip", case=case_roundtrip, quick=200, thorough=4000),
    dict(name="reverse", case=case_reverse, quick=800, thorough=16000),
    dict(name="expectation", case=case_expectation, quick=600, thorough=12000),
    dict(name="linear", case=case_linear, quick=300, thorough=6000),
]
REQUIRED_EVENTS = ("sparse_operators", "padded_operators", "wide_operators", "conjugates", "hermitian_yes", "hermitian_no",
                   "expansions", "matrix_zero", "op_roundtrips", "reversals", "expectations", "homomorphisms", "history_steps", "coefficients_edited", "states_edited", "long_sums", "tiny_terms")
