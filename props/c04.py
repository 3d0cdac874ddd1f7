"""C04 - every view of a simulated state agrees on which qubit is which."""
import math
from collections import Counter

import numpy as np

from orquestra.quantum import circuits as C
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.distributions import (
    create_bitstring_distribution_from_probability_distribution,
)
from orquestra.quantum.measurements import (
    Measurements,
    check_parity,
    get_expectation_value_from_frequencies,
    get_parities_from_measurements,
)
from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    expectation,
    get_expectation_value,
    get_sparse_operator,
)
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction, sample_from_wavefunction

from vmon import gen, lits, ref
from vmon.ref import to_np
from vmon.core import hold_results

hold_results(
    globals(), "get_sparse_operator", "get_parities_from_measurements", "create_bitstring_distribution_from_probability_distribution", "sample_from_wavefunction",
)

PROPERTY = "C04"
RULE = (
    "random circuits (asymmetric entangled states, sparse states, computational basis states "
    "including registers of more than ten qubits, idle qubits at either end) on the bundled "
    "and a base-class simulator; state vector, exact distribution, outcome strings, sampled "
    "tuples, count strings, exact expectations and expectations from measurements are each "
    "compared with one reference indexing (bit of qubit q = bit n-1-q of the basis index), in "
    "both sampling regimes; one simulator is also read through long histories, after being "
    "scribbled on, on nearly equal circuits and on temporaries whose memory is reused. Non-trivial: the exact distribution is not invariant under "
    "reversing the qubits; identified by the circuit and the shot numbers."
)
ASSUMPTIONS = [
    "sample frequencies are only asserted within bounds a correct sampler leaves with "
    "probability below 1e-9 per comparison; supports, lengths and basis states are exact",
    "outcome strings of Wavefunction.get_outcome_probs are little-endian (as documented by the "
    "existing tests); tuples and count strings are indexed by qubit",
]
TOL = 1e-8


class RefSim(BaseWavefunctionSimulator):
    """Base-class simulator with its own engine; everything else is inherited."""

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        state = np.asarray(initial_state, dtype=complex)
        n = int(np.log2(len(state)))
        for op in circuit.operations:
            state = ref.apply_matrix(state, to_np(op.gate.matrix), op.qubit_indices, n)
        return state


def _simulator(ctx, seed):
    return SymbolicSimulator(seed=seed) if ctx.rng.random() < 0.5 else RefSim(seed=seed)


def _ops_operator(rng, n, letters, real=True):
    terms = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        ops = gen.pauli_ops(rng, n, letters=letters, max_weight=rng.choice([1, 2, n]))
        c = rng.choice([rng.uniform(-3, 3), rng.randint(-4, 4), 1.0, -1.0, 2.5])
        items = list(ops.items())
        rng.shuffle(items)
        terms.append(PauliTerm(dict(items), c))
    if len(terms) == 1 and rng.random() < 0.5:
        return terms[0]
    return PauliSum(terms)


def _eigen(op, bits_):
    return sum(
        complex(t.coefficient).real * (-1) ** sum(bits_[q] for q, _ in t.operations) for t in op.terms
    )


def _freq_bound(p, shots):
    """Bernstein half-width at 1e-11 for one frequency."""
    t = math.log(2e11)
    return math.sqrt(2 * p * (1 - p) * t / shots) + t / shots


def _check_samples(ctx, tuples, probs, n, shots, label, **w):
    ctx.check(len(tuples) == shots, f"{label}: {len(tuples)} shots instead of {shots}", **w)
    d = Counter()
    for b in tuples:
        ok = isinstance(b, tuple) and len(b) == n and all(x in (0, 1) for x in b)
        if not ok:
            ctx.fail(f"{label}: outcome {b!r} is not a tuple of {n} bits", **w)
        d[tuple(int(x) for x in b)] += 1
    for b, c in d.items():
        i = int("".join(map(str, b)), 2) if n else 0
        p = probs[i]
        if p < 1e-14:
            ctx.fail(f"{label}: sampled {b}, whose exact probability is {p}", counts=dict(d), **w)
    for i, p in enumerate(probs):
        f = d.get(ref.bits(i, n), 0) / shots
        if abs(f - p) > _freq_bound(min(p, 1.0), shots) + 1e-9:
            ctx.fail(f"{label}: outcome {ref.bits(i, n)} has frequency {f}, probability {p}, {shots} shots",
                     counts=dict(d), **w)
    # per-qubit and per-pair parities are better powered than single outcomes
    for q in range(n):
        e = sum((-1) ** ref.bit(i, q, n) * p for i, p in enumerate(probs))
        m = sum((-1) ** b[q] * c for b, c in d.items()) / shots
        if abs(e - m) > 2 * _freq_bound(min(1.0, max(0.0, (1 - e) / 2)), shots) + 1e-9:
            ctx.fail(f"{label}: <Z{q}> is {m} over {shots} shots, exactly {e}", counts=dict(d), **w)
    ctx.ev("oracle", 2)
    ctx.ev("samples", shots)


def _check_measurements(ctx, meas, n, op, **w):
    """Views derived from one measurement set agree with its tuples."""
    tuples = [tuple(int(x) for x in b) for b in meas.bitstrings]
    counts = meas.get_counts()
    want = Counter("".join(map(str, b)) for b in tuples)
    ctx.check(dict(counts) == dict(want), "count strings do not follow the tuples", got=counts, want=want, **w)
    dist = meas.get_distribution().distribution_dict
    wantd = {b: c / len(tuples) for b, c in Counter(tuples).items()}
    ctx.check(set(dist) == set(wantd) and all(abs(dist[k] - wantd[k]) < 1e-9 for k in wantd),
              "empirical distribution does not follow the tuples", got=dist, want=wantd, **w)
    back = Measurements.from_counts(counts)
    ctx.check(Counter(back.bitstrings) == Counter(tuples), "from_counts reads strings in another order", counts=counts)
    vals = meas.get_expectation_values(op).values
    par = get_parities_from_measurements(meas.bitstrings, op).values
    for i, t in enumerate(op.terms):
        qs = [q for q, _ in t.operations]
        eig = [(-1) ** sum(b[q] for q in qs) for b in tuples]
        ctx.close(vals[i], complex(t.coefficient) * np.mean(eig), "expectation from measurements", 1e-8, term=t, **w)
        even = sum(1 for e in eig if e > 0)
        ctx.check(tuple(int(x) for x in par[i]) == (even, len(eig) - even), "parity tallies", got=par[i], term=t, **w)
        ctx.close(get_expectation_value_from_frequencies(set(qs), counts), np.mean(eig),
                  "expectation from count strings", 1e-9, qubits=qs, counts=counts)
        b = ctx.rng.choice(tuples)
        ctx.check(bool(check_parity(b, qs)) == (sum(b[q] for q in qs) % 2 == 0), "check_parity of a tuple", b=b, qs=qs)
        s = "".join(map(str, b))
        ctx.check(bool(check_parity(s, qs)) == (sum(b[q] for q in qs) % 2 == 0), "check_parity of a string", b=b, qs=qs)
    ctx.ev("measurement_views")


def _views(ctx, circ, psi, sim, seeds, shots_list, **w):
    """Compare every view of `circ` with the reference state psi."""
    rng = ctx.rng
    n = circ.n_qubits
    probs = np.abs(psi) ** 2
    wf = ctx.hold(sim.get_wavefunction(circ), "get_wavefunction")
    ctx.check(wf.n_qubits == n and len(wf) == 2**n, "width of the wavefunction", got=wf.n_qubits, **w)
    ctx.close(to_np(wf.amplitudes).reshape(-1), psi, "state vector", TOL, **w)
    ctx.close(to_np(wf.get_probabilities()).reshape(-1), probs, "probabilities", TOL, **w)
    op_probs = wf.get_outcome_probs()
    ctx.check(set(op_probs) == {"".join(map(str, ref.bits(i, n)))[::-1] for i in range(2**n)},
              "keys of get_outcome_probs", got=list(op_probs)[:8], **w)
    for i in range(2**n):
        s = "".join(map(str, ref.bits(i, n)))[::-1]
        if abs(float(np.ravel(op_probs[s])[0]) - probs[i]) > TOL:
            ctx.fail("get_outcome_probs disagrees with the state", key=s, got=op_probs[s], want=probs[i], **w)
    dist = ctx.hold(sim.get_measurement_outcome_distribution(circ), "distribution").distribution_dict
    dist2 = create_bitstring_distribution_from_probability_distribution(
        np.ravel(wf.get_probabilities())).distribution_dict
    for label, dd in (("exact distribution", dist), ("distribution of probabilities", dist2)):
        ctx.check(set(dd) <= {ref.bits(i, n) for i in range(2**n)}, f"{label}: keys", got=list(dd)[:8], **w)
        for i in range(2**n):
            if abs(dd.get(ref.bits(i, n), 0.0) - probs[i]) > TOL:
                ctx.fail(f"{label}: outcome {ref.bits(i, n)} has {dd.get(ref.bits(i, n), 0.0)} instead of {probs[i]}", **w)
        ctx.ev("oracle")
    ctx.ev("exact_views", 5)

    # operators
    if n:
        for letters in ("Z", "Z", "XYZ"):
            op = _ops_operator(rng, n, letters)
            want = sum(
                complex(t.coefficient) * np.vdot(psi, _apply_term(t, psi, n)) for t in op.terms
            ).real
            tol = 1e-8 * (1 + sum(abs(t.coefficient) for t in op.terms))
            got = sim.get_exact_expectation_values(circ, op)
            ctx.close(got, want, f"exact expectation of {op}", tol, **w)
            ctx.close(get_expectation_value(op, wf), want, f"get_expectation_value of {op}", tol, **w)
            m = get_sparse_operator(op, n)
            ctx.close(expectation(m, to_np(wf.amplitudes).reshape(-1)), want, f"expectation of sparse {op}", tol, **w)
            if letters == "Z":
                avg = sum(p * _eigen(op, b) for b, p in dist.items())
                ctx.close(got, avg, f"<{op}> against the exact distribution", tol, **w)
                ctx.ev("z_expectations")
            ctx.ev("expectations", 3)

    # samples
    for shots in shots_list:
        regime = "few" if 2**n >= shots else "many"
        op = _ops_operator(rng, n, "Z") if n else PauliSum([PauliTerm("I0", 2.0)])
        s2 = type(sim)(seed=rng.choice(seeds))
        meas = ctx.hold(s2.run_and_measure(circ, shots), "run_and_measure")
        _check_samples(ctx, meas.bitstrings, probs, n, shots, f"run_and_measure({shots})", **w)
        _check_measurements(ctx, meas, n, op, **w)
        direct = sample_from_wavefunction(wf, shots, seed=rng.choice(seeds))
        _check_samples(ctx, direct, probs, n, shots, f"sample_from_wavefunction({shots})", **w)
        many = []
        if regime == "few":
            # pool several small draws: order slips show in the frequencies
            reps = max(1, min(60, 2000 // shots))
            for k in range(reps):
                many += sample_from_wavefunction(wf, shots, seed=1000 * seeds[0] + k)
            _check_samples(ctx, many, probs, n, shots * reps, f"{reps} pooled draws of {shots}", **w)
        ctx.ev(f"{regime}_shot_regime")
    shots = rng.choice(shots_list)
    emp = type(sim)(seed=rng.choice(seeds)).get_measurement_outcome_distribution(circ, shots).distribution_dict
    for b, f in emp.items():
        i = int("".join(map(str, b)), 2) if n else 0
        ctx.check(len(b) == n and (probs[i] > 1e-14 or f == 0), f"empirical distribution has {b}", **w)
        ctx.check(abs(f - probs[i]) <= _freq_bound(min(1, probs[i]), shots) + 1e-9, f"empirical frequency of {b}",
                  got=f, want=probs[i], shots=shots, **w)
    ctx.ev("empirical_distributions")


def _apply_term(t, psi, n):
    v = np.asarray(psi, dtype=complex)
    for q, p in t.operations:
        v = ref.apply_matrix(v, ref.PAULI[p], (q,), n)
    return v


def _asymmetric(psi, n):
    p = np.abs(psi) ** 2
    return bool(np.max(np.abs(p - p[ref.bitrev_perm(n)])) > 1e-6)


def _shots(rng, n):
    d = 2**n
    return [rng.choice([1, 2, 3, 5, max(1, d - 1), d, max(1, d // 2)]), rng.choice([d + 1, d + 2, 2 * d + 1, 10 * d, 500 + d])]


def case_circuit(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    ops = gen.circuit_ops(ctx, n, rng.choice([1, 2, 3, 5, 8]), depth=1)
    circ = C.Circuit(ops, n_qubits=n if rng.random() < 0.7 else None)
    n = circ.n_qubits
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    for u, q in gen.steps(circ):
        psi = ref.apply_matrix(psi, u, q, n)
    if rng.random() < 0.2:
        th = tuple(rng.uniform(-3, 3) for _ in range(2**n))
        circ = C.Circuit([*circ.operations, C.MultiPhaseOperation(th)], n_qubits=n)
        psi = psi * np.exp(1j * np.array(th))
    sim = _simulator(ctx, ctx.index)
    ctx.note(circ)
    _views(ctx, circ, psi, sim, [ctx.index * 7 + k for k in range(1, 4)], _shots(rng, n), circuit=circ)
    if _asymmetric(psi, n):
        ctx.nontrivial(str(circ))
        ctx.sample(circ)


def case_basis(ctx):
    """Computational basis states: every view is a single known outcome."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] if rng.random() < 0.4 else [2, 3, 4, 5, 6])
    bits_ = [rng.randint(0, 1) for _ in range(n)]
    circ = C.Circuit([C.X(q) for q in range(n) if bits_[q]], n_qubits=n)
    if rng.random() < 0.5 and n >= 2 and n <= 6:
        for _ in range(rng.randint(1, 3)):
            g = rng.choice([C.CNOT, C.SWAP, C.X.controlled(2) if n >= 3 else C.CNOT])
            q = gen.qubit_tuple(rng, g.num_qubits, n)
            circ += g(*q)
            if g is C.SWAP:
                bits_[q[0]], bits_[q[1]] = bits_[q[1]], bits_[q[0]]
            elif all(bits_[c] for c in q[:-1]):
                bits_[q[-1]] ^= 1
    i = int("".join(map(str, bits_)), 2)
    psi = np.zeros(2**n, dtype=complex)
    psi[i] = 1
    sim = RefSim(seed=ctx.index) if n > 8 else _simulator(ctx, ctx.index)
    shots = _shots(rng, n) if n <= 8 else [rng.randint(1, 50)]
    if n > 8 and rng.random() < 0.2:
        shots = [2**n + 1]
    _views(ctx, circ, psi, sim, [ctx.index + 1, ctx.index + 2], shots, circuit=circ)
    batch = sim.run_batch_and_measure([circ, C.Circuit(n_qubits=n), circ], [2, 1, 3])
    for m, want in zip(batch, (tuple(bits_), (0,) * n, tuple(bits_))):
        ctx.check(set(m.bitstrings) == {want}, "batch outcome", got=m.bitstrings[:3], want=want, circuit=circ)
    for q in range(n):
        e = sim.get_exact_expectation_values(circ, PauliTerm({q: "Z"}, 1.0)) if n <= 8 or q % 4 == 0 else None
        if e is not None:
            ctx.close(e, (-1) ** bits_[q], f"<Z{q}>", 1e-8, circuit=circ)
            ctx.ev("z_expectations")
    if _asymmetric(psi, n):
        ctx.nontrivial("basis", n, i, len(circ.operations))
        ctx.sample("basis state", bits_)


def case_wavefunction(ctx):
    """Sampling and views of a wavefunction built directly (no circuit)."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 7])
    psi = np.asarray(gen.state(ctx, n), dtype=complex)
    probs = np.abs(psi) ** 2
    wf = Wavefunction(psi)
    ctx.close(to_np(wf.amplitudes).reshape(-1), psi, "amplitudes", 1e-9)
    for shots in _shots(rng, n):
        s = sample_from_wavefunction(wf, shots, seed=ctx.index)
        _check_samples(ctx, s, probs, n, shots, f"sample_from_wavefunction({shots})", psi=psi)
        again = sample_from_wavefunction(wf, shots, seed=ctx.index)
        ctx.check(list(map(tuple, s)) == list(map(tuple, again)), "same seed, other samples", shots=shots)
    reps = 200
    few = []
    k = min(2**n, rng.randint(1, 8))
    for j in range(reps):
        few += sample_from_wavefunction(wf, k, seed=ctx.index * 1000 + j)
    _check_samples(ctx, few, probs, n, k * reps, "pooled small draws", psi=psi)
    many = sample_from_wavefunction(wf, 4000, seed=ctx.index)
    _check_samples(ctx, many, probs, n, 4000, "one large draw", psi=psi)
    op = _ops_operator(rng, n, "Z")
    want = sum(p * _eigen(op, ref.bits(i, n)) for i, p in enumerate(probs))
    ctx.close(get_expectation_value(op, wf), want, f"<{op}>", 1e-7, psi=psi)
    ctx.ev("z_expectations")
    if _asymmetric(psi, n):
        ctx.nontrivial("wf", n, tuple(np.round(psi, 6)))
        ctx.sample(n, "qubits", np.round(psi, 3))


def case_history(ctx):
    """One simulator used for many circuits of different widths in turn."""
    rng = ctx.rng
    sim = SymbolicSimulator(seed=ctx.index)
    todo = []
    for _ in range(rng.randint(3, 7)):
        n = rng.choice([1, 2, 3, 4])
        bits_ = tuple(rng.randint(0, 1) for _ in range(n))
        todo.append((C.Circuit([C.X(q) for q in range(n) if bits_[q]], n_qubits=n), bits_))
    for _ in range(10):
        c, b = rng.choice(todo)
        n = len(b)
        r = rng.randrange(5)
        if r == 0:
            m = sim.run_and_measure(c, rng.choice([1, 2**n, 2**n + 1, 3]))
            ctx.check(set(m.bitstrings) == {b}, "outcome", got=m.bitstrings[:2], want=b)
            ctx.check(set(m.get_counts()) == {"".join(map(str, b))}, "count string", got=m.get_counts(), want=b)
        elif r == 1:
            d = sim.get_measurement_outcome_distribution(c).distribution_dict
            ctx.check({k for k, v in d.items() if v > 1e-12} == {b}, "exact distribution", got=d, want=b)
        elif r == 2:
            d = sim.get_measurement_outcome_distribution(c, rng.randint(1, 9)).distribution_dict
            ctx.check({k for k, v in d.items() if v > 0} == {b}, "empirical distribution", got=d, want=b)
        elif r == 3:
            qs = [q for q in range(n) if rng.random() < 0.5]
            e = sim.get_exact_expectation_values(c, PauliTerm({q: "Z" for q in qs}, 1.5))
            ctx.close(e, 1.5 * (-1) ** sum(b[q] for q in qs), "expectation", 1e-9, circuit=c, qs=qs)
        else:
            a = to_np(sim.get_wavefunction(c).amplitudes).reshape(-1)
            ctx.check(int(np.argmax(np.abs(a))) == int("".join(map(str, b)), 2), "state index", got=a, want=b)
        ctx.ev("history_views")
    ctx.nontrivial("hist", [b for _, b in todo])


def case_temporaries(ctx):
    """One simulator; every circuit and operator is dropped before the next one of the same shape is made."""
    rng = ctx.rng
    sim = _simulator(ctx, ctx.index)
    n = rng.choice([1, 2, 3])
    seen = set()

    def ask(view):
        # the objects die when this returns: the next ones may take their addresses
        bits_ = tuple(rng.randint(0, 1) for _ in range(n))
        circ = C.Circuit([(C.X if b else C.I)(q) for q, b in enumerate(bits_)], n_qubits=n)
        mask = [q for q in range(n) if rng.random() < 0.6]
        c = rng.uniform(-2, 2)
        op = PauliTerm({q: "Z" for q in mask}, c) if rng.random() < 0.5 else PauliSum([PauliTerm({q: "Z" for q in mask}, c)])
        want = c * (-1) ** sum(bits_[q] for q in mask)
        seen.add(id(circ))
        w = dict(bits=bits_, operator=str(op), view=view)
        if view == 0:
            ctx.close(sim.get_exact_expectation_values(circ, op), want, "exact expectation of short-lived objects", 1e-9, **w)
        elif view == 1:
            d = sim.get_measurement_outcome_distribution(circ).distribution_dict
            ctx.check({k for k, v in d.items() if v > 1e-12} == {bits_}, "exact distribution of a short-lived circuit", got=d, **w)
        elif view == 2:
            m = sim.run_and_measure(circ, 2)
            ctx.check(set(m.bitstrings) == {bits_}, "outcomes of a short-lived circuit", got=m.bitstrings, **w)
            ctx.close(m.get_expectation_values(op).values.sum(), want, "expectation from short-lived measurements", 1e-9, **w)
            ctx.check(set(m.get_counts()) == {"".join(map(str, bits_))}, "counts of short-lived measurements", got=m.get_counts(), **w)
        elif view == 3:
            a = to_np(sim.get_wavefunction(circ).amplitudes).reshape(-1)
            ctx.check(int(np.argmax(np.abs(a))) == int("".join(map(str, bits_)), 2), "state of a short-lived circuit", got=a, **w)
        elif view == 4:
            wf = ctx.hold(sim.get_wavefunction(circ), "get_wavefunction")
            ctx.close(get_expectation_value(op, wf), want, "expectation in a short-lived state", 1e-9, **w)
            ctx.check(set(sample_from_wavefunction(wf, 2, seed=1)) == {bits_}, "samples of a short-lived state", **w)
        elif view == 5:
            ms = sim.run_batch_and_measure([circ, C.Circuit([C.X(0)], n_qubits=n)], [1, 1])
            ctx.check(ms[0].bitstrings[0] == bits_, "batch outcome of a short-lived circuit", got=ms[0].bitstrings, **w)
        else:
            d = sim.get_measurement_outcome_distribution(circ, 3).distribution_dict
            ctx.check({k for k, v in d.items() if v > 0} == {bits_}, "empirical distribution of a short-lived circuit", got=d, **w)

    k = 12
    for view in rng.sample(range(7), 3):
        for _ in range(k):
            ask(view)
    for _ in range(k):
        ask(rng.randrange(7))
    ctx.ev("temporaries", 4 * k)
    ctx.ev("addresses_reused", 4 * k - len(seen))
    ctx.nontrivial("temporaries", ctx.index)


def case_similar(ctx):
    """One simulator answers, in turn, for circuits and operators that nearly coincide."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5])
    base = gen.similar_ops(ctx, n, rng.choice([2, 4, 8, 20]))
    circs = []
    for _ in range(rng.randint(2, 4)):
        ops = list(base)
        r = rng.random()
        if r < 0.4:
            i = rng.randrange(len(ops))
            ops[i] = gen.variant(ctx, ops[i].gate)(*ops[i].qubit_indices)
        elif r < 0.6 and n > 1:
            i = rng.randrange(len(ops))
            t = list(ops[i].qubit_indices)
            p = rng.sample(range(n), n)
            ops[i] = ops[i].gate(*[p[q] for q in t])
        elif r < 0.8:
            rng.shuffle(ops)
        width = n + rng.choice([0, 0, 0, 1, 2])
        circ = C.Circuit(ops, n_qubits=width)
        psi = np.zeros(2**width, dtype=complex)
        psi[0] = 1
        for u, q in gen.steps(circ):
            psi = ref.apply_matrix(psi, u, q, width)
        circs.append((circ, psi))
    term = gen.pauli_ops(rng, n, letters="Z", max_weight=n)
    operators = []
    for _ in range(3):
        c = rng.uniform(-3, 3)
        ops = dict(term)
        if rng.random() < 0.5:
            ops[rng.randrange(n)] = "Z"
        operators += [PauliTerm(ops, c), PauliTerm(dict(ops), c + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1))]
    operators += [PauliSum([operators[0], rng.choice(operators), rng.choice(operators)])]
    sim = _simulator(ctx, ctx.index)
    for _ in range(rng.randint(6, 12)):
        circ, psi = rng.choice(circs)
        op = rng.choice(operators)
        w = circ.n_qubits
        probs = np.abs(psi) ** 2
        r = rng.randrange(5)
        info = dict(circuit=circ, operator=op)
        if r == 0:
            shots = rng.choice([1, 2**w, 2**w + 1, 300, rng.choice(lits.ints_in(1, 3000) or [5])])
            m = sim.run_and_measure(circ, shots)
            _check_samples(ctx, m.bitstrings, probs, w, shots, f"run_and_measure({shots})", **info)
        elif r == 1:
            d = sim.get_measurement_outcome_distribution(circ).distribution_dict
            for i in range(2**w):
                ctx.check(abs(d.get(ref.bits(i, w), 0.0) - probs[i]) < TOL, "exact distribution", outcome=ref.bits(i, w), got=d, **info)
        elif r <= 3:
            want = sum(p * _eigen(op, ref.bits(i, w)) for i, p in enumerate(probs))
            ctx.close(sim.get_exact_expectation_values(circ, op), want, "exact expectation", 1e-8 * (1 + sum(abs(t.coefficient) for t in op.terms)), **info)
        else:
            ctx.close(to_np(sim.get_wavefunction(circ).amplitudes).reshape(-1), psi, "state vector", TOL, **info)
        ctx.ev("similar_views")
    ctx.nontrivial("similar", [str(c) for c, _ in circs])


def case_many_shots(ctx):
    """Tens of thousands of shots."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8])
    psi = np.asarray(gen.state(ctx, n), dtype=complex)
    probs = np.abs(psi) ** 2
    wf = Wavefunction(psi)
    shots = rng.choice([9999, 10001, 20000, 65537, 100001, *lits.ints_in(5000, 200000)])
    s = sample_from_wavefunction(wf, shots, seed=ctx.index)
    _check_samples(ctx, s, probs, n, shots, f"sample_from_wavefunction({shots})", psi=psi)
    m = Measurements(s)
    _check_measurements(ctx, m, n, _ops_operator(rng, n, "Z"), shots=shots)
    ctx.ev("many_shots", shots)
    ctx.nontrivial("many", n, tuple(np.round(psi, 6)))


WORKLOADS = [
    dict(name="similar", case=case_similar, quick=120, thorough=2500, hang="inconclusive"),
    dict(name="temporaries", case=case_temporaries, quick=60, thorough=1000),
    dict(name="many_shots", case=case_many_shots, quick=12, thorough=200),
    dict(name="circuit", case=case_circuit, quick=500, thorough=8000, hang="inconclusive"),
    dict(name="basis", case=case_basis, quick=250, thorough=4000),
    dict(name="wavefunction", case=case_wavefunction, quick=300, thorough=5000),
    dict(name="history", case=case_history, quick=200, thorough=3000),
]
REQUIRED_EVENTS = ("exact_views", "z_expectations", "samples", "few_shot_regime", "many_shot_regime", "history_views", "similar_views", "many_shots", "temporaries", "addresses_reused")
