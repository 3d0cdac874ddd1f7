"""C15 - estimation returns one correctly weighted result per task, in task order."""
import itertools
from collections import Counter

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.estimation import (
    calculate_exact_expectation_values, estimate_expectation_values_by_averaging, evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks, split_estimation_tasks_to_measure,
)
from orquestra.quantum.measurements import ExpectationValues, Measurements
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

from vmon import gen, ref
from vmon.core import hold_results

hold_results(
    globals(), "calculate_exact_expectation_values", "estimate_expectation_values_by_averaging", "evaluate_non_measured_estimation_tasks",
)

PROPERTY = "C15"
RULE = (
    "task lists of 0-12 tasks mixing measurable, constant (one or several constant terms, empty sum, any shot number incl. "
    "None and zero) and zero-shot tasks in random order, all 3^k orderings of kinds for k <= 5, on basis-state circuits "
    "(X layers, permutation gates, rotations by pi multiples, idle qubits) and random circuits, run by the symbolic "
    "simulator and by logging devices with recognisable results; exact values of random circuits and operators; tasks with "
    "symbols and one map each. Oracle: eigenvalues of the known basis state, exact statistics of the logged shots of the "
    "task's own circuit, dense quadratic forms. Identified by the task list."
)
ASSUMPTIONS = [
    "coefficients of measured operators are real",
    "operators act within the register of their circuit",
    "as many symbol maps as tasks are given",
    "values are compared at 1e-9 relative to the coefficients",
]


class Device(BaseCircuitRunner):
    """Delivers random shots, logging them per circuit."""

    def __init__(self, rng, npr, extra):
        super().__init__()
        self.rng, self.npr, self.extra = rng, npr, extra
        self.log = []
        self.requests = []

    def _run_and_measure(self, circuit, n_samples):
        n = int(n_samples) + (self.rng.randint(0, self.extra) if self.extra else 0)
        bits = _basis(circuit)
        if bits is not None:
            shots = [bits] * n
        else:
            p = self.npr.random(circuit.n_qubits)
            shots = [tuple(int(x) for x in r) for r in (self.npr.random((n, circuit.n_qubits)) < p).astype(int)]
        self.log.append((circuit, shots))
        self.requests.append((circuit, n_samples))
        return Measurements(list(shots))


def _basis(circ):
    """Outcome of a circuit known to prepare a basis state, else None."""
    bits = [0] * circ.n_qubits
    for op in circ.operations:
        if not isinstance(op, C.GateOperation) or list(op.gate.free_symbols):
            return None
        name, q = op.gate.name, op.qubit_indices
        if name in ("X", "Y"):
            bits[q[0]] ^= 1
        elif name in ("I", "Z", "S", "T", "RZ", "PHASE", "CZ", "CPHASE", "ZZ", "Delay"):
            pass
        elif name in ("RX", "RY"):
            k = float(op.gate.params[0]) / np.pi
            if abs(k - round(k)) > 1e-12:
                return None
            bits[q[0]] ^= round(k) % 2
        elif name == "CNOT":
            bits[q[1]] ^= bits[q[0]]
        elif name in ("SWAP", "ISWAP"):
            bits[q[0]], bits[q[1]] = bits[q[1]], bits[q[0]]
        elif name == "Control":
            g = op.gate
            if g.wrapped_gate.name != "X":
                return None
            bits[q[-1]] ^= int(all(bits[i] for i in q[:-1]))
        else:
            return None
    return tuple(bits)


def _basis_circuit(ctx, n=None):
    rng = ctx.rng
    n = n or rng.choice([1, 2, 3, 3, 4, 5, 7])
    ops = []
    for q in range(n):
        if rng.random() < 0.5:
            ops.append(rng.choice([C.X, C.X, C.Y, C.RX(np.pi), C.RY(-np.pi), C.RX(3 * np.pi)])(q))
    for _ in range(rng.randint(0, 5)):
        k = rng.choice([1, 2, 2, 3])
        if k > n:
            continue
        qs = rng.sample(range(n), k)
        if k == 1:
            g = rng.choice([C.X, C.Z, C.S, C.T, C.RZ(rng.uniform(-3, 3)), C.I, C.RX(2 * np.pi), C.PHASE(0.3)])
        elif k == 2:
            g = rng.choice([C.CNOT, C.SWAP, C.ISWAP, C.CZ, C.ZZ(0.7), C.CPHASE(1.1)])
        else:
            g = C.X.controlled(2)
        ops.append(g(*qs))
    rng.random() < 0.3 and rng.shuffle(ops)
    return C.Circuit(ops, n_qubits=n if not ops or rng.random() < 0.7 else None)


def _random_circuit(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    return gen.circuit(ctx, n=n, length=rng.randint(1, 5), depth=1, param=lambda: rng.uniform(-3, 3), custom=False)


def _ising(ctx, n, constant_ok=True):
    rng = ctx.rng
    r = rng.random()
    if r < 0.2:
        qs = rng.sample(range(n), rng.randint(1, n))
        return PauliTerm({q: "Z" for q in qs}, gen.coefficient(rng, real=True))
    while True:
        op = gen.ising_sum(rng, n, rng.choice([1, 2, 3, 5]))
        if not op.is_constant:
            if rng.random() < 0.4:
                op = PauliSum([*op.terms, PauliTerm({}, gen.coefficient(rng, real=True))])
            return op


def _constant(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.35:
        return PauliTerm({}, gen.coefficient(rng, real=True))
    if r < 0.45:
        return PauliSum()
    if r < 0.55:
        return PauliTerm.identity() * gen.coefficient(rng, real=True)
    return PauliSum([PauliTerm({}, gen.coefficient(rng, real=True)) for _ in range(rng.choice([1, 1, 2, 3]))])


def _task(ctx, kind, circ):
    rng = ctx.rng
    n = max(1, circ.n_qubits)
    if kind == "constant":
        shots = rng.choice([None, 0, 1, 10, 1000])
        return EstimationTask(_constant(ctx), circ, shots)
    op = _ising(ctx, n)
    if kind == "zero":
        return EstimationTask(op, circ, 0)
    return EstimationTask(op, circ, rng.choice([1, 1, 2, 3, 7, 10, 33, 100, rng.randint(1, 200)]))


def _terms(op):
    return [(complex(t.coefficient).real, sorted(int(q) for q in t.qubits)) for t in op.terms]


def _expected_from_shots(op, shots):
    n = len(shots)
    counts = Counter(shots)
    out = []
    for c, qs in _terms(op):
        s = sum(k * (-1) ** sum(b[q] for q in qs) for b, k in counts.items())
        out.append(c * s / n)
    return out


def _check_result(ctx, ev, task, kind, i, log, **w):
    w = dict(index=i, kind=kind, operator=task.operator, circuit=task.circuit, shots=task.number_of_shots, **w)
    ctx.check(isinstance(ev, ExpectationValues), f"result {i} is not an ExpectationValues", got=ev, **w)
    got = np.asarray(ev.values, dtype=complex).ravel()
    scale = 1 + sum(abs(c) for c, _ in _terms(task.operator))
    if kind == "constant":
        ctx.close(got.sum() if len(got) else 0.0, sum(c for c, _ in _terms(task.operator)), f"result {i}: value of a constant operator",
                  1e-12 * scale, got=list(got), **w)
    elif kind == "zero":
        ctx.check(bool(np.all(got == 0)), f"result {i}: a zero-shot task does not yield zero", got=list(got), **w)
    else:
        bits = _basis(task.circuit)
        if bits is not None:
            want = [c * (-1) ** sum(bits[q] for q in qs) for c, qs in _terms(task.operator)]
            ctx.close(got, want, f"result {i}: coefficient times eigenvalue", 1e-12 * scale, bits=bits, **w)
            ctx.ev("basis_state_results")
        elif log is not None:
            options = [_expected_from_shots(task.operator, s) for s in log]
            ok = any(len(o) == len(got) and np.allclose(got, o, rtol=0, atol=1e-9 * scale) for o in options)
            ctx.check(ok, f"result {i} is not the statistics of the shots of its own circuit", got=list(got), want=options[:3], **w)
            ctx.ev("logged_results")
        else:
            ctx.check(len(got) == len(task.operator.terms), f"result {i}: number of values", got=list(got), **w)
            for g, (c, qs) in zip(got, _terms(task.operator)):
                ctx.check(abs(g) <= abs(c) * (1 + 1e-9) + 1e-12, f"result {i}: value beyond its coefficient", got=list(got), **w)
                if not qs:
                    ctx.check(abs(g - c) <= 1e-12 * scale, f"result {i}: value of a constant term", got=list(got), **w)
                n = task.number_of_shots
                k = (g.real / c + 1) / 2 * n if c else 0
                ctx.check(not c or abs(k - round(k)) < 1e-6, f"result {i} is not a statistic of {n} shots", got=list(got), **w)


def _task_key(t):
    return repr((t.operator, t.circuit, t.number_of_shots))


def _estimate_and_check(ctx, tasks, kinds, runner, log_of):
    before = [(t, _task_key(t)) for t in tasks]
    results = estimate_expectation_values_by_averaging(runner, tasks) if ctx.rng.random() < 0.6 else \
        estimate_expectation_values_by_averaging(runner=runner, estimation_tasks=tasks)
    ctx.check(len(results) == len(tasks), "number of results", tasks=len(tasks), got=len(results), kinds=kinds)
    for i, (ev, t, k) in enumerate(zip(results, tasks, kinds)):
        _check_result(ctx, ev, t, k, i, log_of(t) if k == "measure" else None, kinds=kinds)
    ctx.check(len(tasks) == len(before) and all(a is t and _task_key(t) == key for a, (t, key) in zip(tasks, before)), "estimation changed the tasks")
    ctx.ev("task_lists")
    ctx.ev("results_checked", len(tasks))
    return results


def _check_split(ctx, tasks, kinds):
    m, nm, im, inm = split_estimation_tasks_to_measure(tasks)
    w = dict(kinds=kinds)
    ctx.check(sorted([*im, *inm]) == list(range(len(tasks))), "split: indices are not a partition", measured=im, rest=inm, **w)
    ctx.check(len(m) == len(im) and all(tasks[i] is t or tasks[i] == t for i, t in zip(im, m)), "split: measured tasks at other indices", **w)
    ctx.check(len(nm) == len(inm) and all(tasks[i] is t or tasks[i] == t for i, t in zip(inm, nm)), "split: other tasks at other indices", **w)
    ctx.check({i for i in im} == {i for i, k in enumerate(kinds) if k == "measure"}, "split: wrong set of measured tasks", measured=im, **w)
    values = evaluate_non_measured_estimation_tasks(nm)
    ctx.check(len(values) == len(nm), "evaluate_non_measured: number of results", **w)
    for i, ev in zip(inm, values):
        _check_result(ctx, ev, tasks[i], kinds[i], i, None, kinds=kinds)
    ctx.ev("splits")


def mixed_lists(ctx):
    rng = ctx.rng
    k = rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 12, 40])
    kinds = [rng.choice(["measure", "measure", "constant", "zero"]) for _ in range(k)]
    device = rng.random() < 0.6
    tasks = []
    shared = _basis_circuit(ctx)
    one = rng.choice([shared, _random_circuit(ctx)]) if rng.random() < 0.2 else None  # the same circuit everywhere
    if one is not None and rng.random() < 0.7:
        kinds = ["measure"] * len(kinds)
    for kind in kinds:
        r = rng.random()
        circ = one if one is not None else _basis_circuit(ctx) if r < 0.5 else shared if r < 0.65 else _random_circuit(ctx)
        tasks.append(_task(ctx, kind, circ))
    if k > 2 and rng.random() < 0.3:
        i, j = rng.sample(range(k), 2)
        tasks[j], kinds[j] = tasks[i], kinds[i]  # the same task twice
    ctx.note("kinds", kinds)
    _check_split(ctx, tasks, kinds)
    if device:
        runner = Device(rng, ctx.np, rng.choice([0, 0, 5]))
        log_of = lambda t: [s for c, s in runner.log if c == t.circuit]  # noqa: E731
    else:
        runner = SymbolicSimulator(seed=rng.choice([None, rng.randint(0, 999)]))
        log_of = lambda t: None  # noqa: E731
    results = _estimate_and_check(ctx, tasks, kinds, runner, log_of)
    if device:
        measured = [t for t, kd in zip(tasks, kinds) if kd == "measure"]
        for c in {repr(t.circuit) for t in measured}:
            need = sorted(t.number_of_shots for t in measured if repr(t.circuit) == c)
            have = sorted(n for x, n in runner.requests if repr(x) == c)
            ctx.check(len(have) >= 1 and have[-1] >= need[-1], "fewer shots requested than a task asks for", need=need, have=have)
    # permuting the tasks permutes the results
    if all(_basis(t.circuit) is not None for t in tasks) and k > 1:
        order = rng.sample(range(k), k)
        again = estimate_expectation_values_by_averaging(runner, [tasks[i] for i in order])
        for pos, i in enumerate(order):
            ctx.close(again[pos].values, results[i].values, "permuted task list", 1e-9 * (1 + max([abs(c) for c, _ in _terms(tasks[i].operator)] + [0])),
                      order=order, position=pos)
        ctx.ev("permutations")
    ctx.nontrivial([_task_key(t) for t in tasks])
    ctx.sample([(kd, t.operator, t.number_of_shots) for kd, t in zip(kinds, tasks)][:5])


ORDERS = [o for k in range(1, 6) for o in itertools.product(("measure", "constant", "zero"), repeat=k)]


def all_orders(ctx):
    """Every sequence of task kinds up to length 5."""
    kinds = list(ORDERS[ctx.index])
    tasks = []
    for i, kind in enumerate(kinds):
        circ = _basis_circuit(ctx, n=ctx.rng.randint(1, 4))
        # distinct magnitudes so that a misplaced result shows
        if kind == "constant":
            op = PauliTerm({}, 100.0 + i)
        else:
            op = PauliSum([PauliTerm({ctx.rng.randrange(circ.n_qubits): "Z"}, 3.0 ** (i + 1)), PauliTerm({}, 0.25)])
        tasks.append(EstimationTask(op, circ, 0 if kind == "zero" else 1 + i if kind == "measure" else ctx.rng.choice([0, 4, None])))
    _check_split(ctx, tasks, kinds)
    runner = SymbolicSimulator() if ctx.rng.random() < 0.5 else Device(ctx.rng, ctx.np, 0)
    _estimate_and_check(ctx, tasks, kinds, runner, lambda t: None)
    ctx.nontrivial(kinds)


def basis_states(ctx):
    """Every Z string on a random basis state, any number of shots."""
    rng = ctx.rng
    n = rng.randint(1, 4)
    circ = _basis_circuit(ctx, n)
    bits = _basis(circ)
    n = circ.n_qubits
    assert bits is not None
    terms = [PauliTerm({q: "Z" for q in range(n) if (s >> q) & 1}, gen.coefficient(rng, real=True)) for s in range(2**n)]
    rng.shuffle(terms)
    if rng.random() < 0.5:
        tasks = [EstimationTask(PauliSum(terms), circ, rng.choice([1, 2, 5, 64, 1000]))]
    else:
        tasks = [EstimationTask(t, circ, rng.choice([1, 2, 3, 17])) for t in terms]
    kinds = ["constant" if t.operator.is_constant else "measure" for t in tasks]
    _estimate_and_check(ctx, tasks, kinds, SymbolicSimulator(), lambda t: None)
    ops = [t.operator for t in tasks]
    exact = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    for t, ev in zip(tasks, exact):
        want = sum(c * (-1) ** sum(bits[q] for q in qs) for c, qs in _terms(t.operator))
        ctx.close(np.asarray(ev.values).ravel(), [want], "exact value on a basis state", 1e-9 * (1 + sum(abs(c) for c, _ in _terms(t.operator))),
                  circuit=circ, operator=t.operator)
    ctx.nontrivial(repr(circ), repr(ops))


def exact_values(ctx):
    rng = ctx.rng
    tasks, wants = [], []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        circ = gen.circuit(ctx, n=rng.choice([1, 2, 3, 4]), length=rng.randint(0, 6), depth=1)
        n = circ.n_qubits
        if n == 0:
            continue
        width = rng.randint(1, n)
        if rng.random() < 0.25:
            op = gen.term(rng, width, coeff=gen.coefficient(rng, real=True))
        else:
            op = gen.pauli_sum(rng, width, rng.choice([0, 1, 2, 3, 5]), real=True)
        psi = np.zeros(2**n, dtype=complex)
        psi[0] = 1
        for u, qs in gen.steps(circ):
            psi = ref.apply_matrix(psi, u, qs, n)
        want = np.vdot(psi, ref.sum_matrix(ref.lib_terms(op), n) @ psi).real
        tasks.append(EstimationTask(op, circ, rng.choice([None, 0, 10])))
        wants.append((want, 1 + sum(abs(c) for c, _ in ref.lib_terms(op))))
    results = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    ctx.check(len(results) == len(tasks), "exact values: number of results")
    for i, (ev, t, (want, scale)) in enumerate(zip(results, tasks, wants)):
        ctx.check(isinstance(ev, ExpectationValues), "exact values: type", got=ev)
        ctx.close(np.asarray(ev.values).sum(), want, f"exact value {i}", 1e-7 * scale, circuit=t.circuit, operator=t.operator)
        ctx.close(SymbolicSimulator().get_exact_expectation_values(t.circuit, t.operator), want, f"exact value {i} of the simulator", 1e-7 * scale,
                  circuit=t.circuit, operator=t.operator)
        ctx.ev("exact_results")
    ctx.nontrivial([_task_key(t) for t in tasks])


def _perturbed(rng, op):
    """An operator close to, or easily taken for, the given one."""
    terms = [t.copy() for t in op.terms]
    r = rng.random()
    eps = rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1)
    if not terms or r < 0.15:
        terms.append(PauliTerm({}, eps))
    elif r < 0.55:
        i = rng.randrange(len(terms))
        terms[i] = terms[i].copy(new_coefficient=terms[i].coefficient * (1 + eps))
    elif r < 0.7:
        i = rng.randrange(len(terms))
        terms[i] = terms[i].copy(new_coefficient=terms[i].coefficient + eps)
    elif r < 0.8:
        i = rng.randrange(len(terms))
        terms[i] = terms[i].copy(new_coefficient=-terms[i].coefficient)
    elif r < 0.9:
        rng.shuffle(terms)
    else:
        terms.append(terms[0])  # one object listed twice
    return terms[0] if isinstance(op, PauliTerm) and len(terms) == 1 else PauliSum(terms)


def related(ctx):
    """Long lists of tasks that nearly coincide: shared, equal and slightly different circuits and operators."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    bases = [_basis_circuit(ctx, n), gen.circuit(ctx, n=n, length=rng.randint(1, 4), depth=1, idle=True), C.Circuit([C.RY(0.7)(0)], n_qubits=n)]
    bases = [c for c in bases if c.n_qubits]
    width = min(c.n_qubits for c in bases)
    ops = [_ising(ctx, width) for _ in range(2)]
    if rng.random() < 0.5:
        ops.append(gen.pauli_sum(rng, width, 2, real=True))
    tasks = []
    for _ in range(rng.choice([2, 3, 6, 10, 25, 60])):
        if tasks and rng.random() < 0.6:
            prev = tasks[-1]
            circ, op = prev.circuit, prev.operator
            r = rng.random()
            if r < 0.55:
                op = _perturbed(rng, op)
            elif r < 0.7:
                circ = C.Circuit(list(circ.operations), n_qubits=circ.n_qubits + rng.choice([0, 1]))
            elif r < 0.85:
                circ = circ + C.RY(10 ** rng.uniform(-5, 0))(rng.randrange(circ.n_qubits))
            else:
                circ = circ + C.X(rng.randrange(circ.n_qubits))
        else:
            circ, op = rng.choice(bases), rng.choice(ops)
        tasks.append(EstimationTask(op, circ, rng.choice([None, 0, 1, 2, 10])))
    results = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    ctx.check(len(results) == len(tasks), "exact values: number of results")
    states = {}
    for i, (ev, t) in enumerate(zip(results, tasks)):
        m = t.circuit.n_qubits
        psi = states.get(id(t.circuit))
        if psi is None:
            psi = np.zeros(2**m, dtype=complex)
            psi[0] = 1
            for u, qs in gen.steps(t.circuit):
                psi = ref.apply_matrix(psi, u, qs, m)
            states[id(t.circuit)] = psi
        terms = ref.lib_terms(t.operator)
        want = np.vdot(psi, ref.sum_matrix(terms, m) @ psi).real
        ctx.close(np.asarray(ev.values).ravel(), [want], f"exact value {i} in a list of similar tasks", 1e-10 * (1e-2 + sum(abs(c) for c, _ in terms)),
                  circuit=t.circuit, operator=t.operator, previous=tasks[i - 1] if i else None)
        ctx.ev("related_results")
    zs = [t for t in tasks if all(set(o.values()) <= {"Z"} for _, o in ref.lib_terms(t.operator))]
    zs = [EstimationTask(t.operator, t.circuit, rng.choice([0, 1, 2, 3, 5])) for t in zs]
    kinds = ["constant" if t.operator.is_constant else "zero" if t.number_of_shots == 0 else "measure" for t in zs]
    _check_split(ctx, zs, kinds)
    runner = Device(rng, ctx.np, rng.choice([0, 5]))
    _estimate_and_check(ctx, zs, kinds, runner, lambda t: [s for c, s in runner.log if c == t.circuit])
    ctx.nontrivial([_task_key(t) for t in tasks][:10])


def binding(ctx):
    rng = ctx.rng
    k = rng.choice([0, 1, 2, 3, 5, 5, 30])
    syms = gen.symbols(rng, 3)
    tasks, maps = [], []
    shared_map = {s: rng.uniform(-3, 3) for s in syms}
    for _ in range(k):
        n = rng.randint(1, 3)
        ops = []
        for _ in range(rng.randint(0, 4)):
            name = rng.choice(["RX", "RY", "RZ", "PHASE", "H", "X", "XX", "CNOT", "U3", "CPHASE"])
            g = gen.make_builtin(rng, name, lambda: gen.expression(rng, syms, 1) if rng.random() < 0.7 else rng.uniform(-3, 3))
            if g.num_qubits <= n:
                if rng.random() < 0.15 and g.num_qubits < n:
                    g = g.controlled(1)
                elif rng.random() < 0.15:
                    g = g.dagger
                ops.append(g(*rng.sample(range(n), g.num_qubits)))
        circ = C.Circuit(ops, n_qubits=n)
        op = gen.pauli_sum(rng, n, 2) if rng.random() < 0.7 else gen.term(rng, n)
        tasks.append(EstimationTask(op, circ, rng.choice([None, 0, 1, 100])))
        r = rng.random()
        if r < 0.5:
            m = {s: rng.choice([rng.uniform(-3, 3), rng.randint(-3, 3), np.float64(rng.uniform(-1, 1))]) for s in syms}
        elif r < 0.65:
            m = {s: rng.uniform(-3, 3) for s in syms[: rng.randint(0, 2)]}
        elif r < 0.75:
            m = {}
        elif r < 0.85:
            m = shared_map
        else:
            m = {**{s: rng.uniform(-3, 3) for s in syms}, sympy.Symbol("unused"): 1.0}
        maps.append(m)
    if k > 1 and rng.random() < 0.4:
        tasks = [EstimationTask(t.operator, tasks[0].circuit, t.number_of_shots) for t in tasks]
        tasks = [EstimationTask(gen.pauli_sum(rng, t.circuit.n_qubits, 2), t.circuit, t.number_of_shots) for t in tasks]
    if k > 1 and rng.random() < 0.35:
        # maps holding the same values, or almost the same ones, for other symbols
        vs = [rng.uniform(-3, 3) for _ in syms]
        for i in range(k):
            r = rng.random()
            if r < 0.5:
                maps[i] = dict(zip(rng.sample(syms, len(syms)), vs))
            elif r < 0.7:
                maps[i] = dict(zip(syms, [v * (1 + rng.choice([0, 1e-7, 1e-5])) for v in vs]))
            elif r < 0.85:
                maps[i] = dict(zip(syms, rng.sample(vs, len(vs))))
    before = [_task_key(t) for t in tasks], [dict(m) for m in maps]
    got = evaluate_estimation_circuits(tasks, maps)
    ctx.check(len(got) == len(tasks), "binding: number of tasks", want=len(tasks), got=len(got))
    for i, (g, t, m) in enumerate(zip(got, tasks, maps)):
        w = dict(task=i, map=m, circuit=t.circuit)
        ctx.check(isinstance(g, EstimationTask), "binding: type", got=g, **w)
        ctx.check(g.operator is t.operator or repr(g.operator) == repr(t.operator), "binding changed the operator", got=g.operator, want=t.operator, **w)
        ctx.check(g.number_of_shots == t.number_of_shots and type(g.number_of_shots) is type(t.number_of_shots), "binding changed the number of shots", got=g.number_of_shots, **w)
        ctx.check(g.circuit.n_qubits == t.circuit.n_qubits and len(g.circuit.operations) == len(t.circuit.operations), "binding changed the circuit's shape", got=g.circuit, **w)
        values = {s: m.get(s, 0.37 + 0.11 * j) for j, s in enumerate(syms)}
        for a, b in zip(g.circuit.operations, t.circuit.operations):
            ctx.check(a.qubit_indices == b.qubit_indices, "binding moved an operation", got=a, **w)
            ctx.close(ref.subs_np(a.gate.matrix, values), ref.subs_np(b.gate.matrix, values), "binding: operation bound with another map", 1e-8, op=b, got=a, **w)
            left = set(a.free_symbols)
            ctx.check(not left & set(m), "binding left a symbol of the map", op=b, got=a, **w)
        ctx.ev("bound_tasks")
    ctx.check(before == ([_task_key(t) for t in tasks], [dict(m) for m in maps]), "binding changed its arguments")
    ctx.nontrivial(before[0], repr(maps))


REQUIRED_EVENTS = ("task_lists", "splits", "basis_state_results", "logged_results", "permutations", "exact_results", "related_results", "bound_tasks")
WORKLOADS = [
    dict(name="all_orders", case=all_orders, quick=len(ORDERS), thorough=len(ORDERS), fixed=True),
    dict(name="mixed_lists", case=mixed_lists, quick=1200, thorough=15000),
    dict(name="basis_states", case=basis_states, quick=300, thorough=5000),
    dict(name="exact_values", case=exact_values, quick=250, thorough=5000),
    dict(name="related", case=related, quick=200, thorough=4000),
    dict(name="binding", case=binding, quick=500, thorough=8000),
]
