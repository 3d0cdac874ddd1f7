"""C14 - runners validate requests, deliver enough shots and count their work."""
import itertools
import json
import os

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliSum
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator
from orquestra.quantum.runners.trackers import MeasurementTrackingBackend

from vmon import gen, lits, ref

PROPERTY = "C14"
RULE = (
    "histories of 6-30 mixed calls (single, batch, distribution, wavefunction, exact expectation) with valid and invalid "
    "arguments (zero, negative, short, long and partly non-positive lists, lists/tuples/arrays of counts, empty batches, "
    "None) on one runner object: fake devices (exact, over-delivering, failing mid-batch, with a batch override), the "
    "symbolic simulator, simulators with random sets of native operations, and tracking wrappers of all of these, nested "
    "as well, and runs of temporary circuits whose memory is reused. Hooks in the subclasses log every execution; a counter model, the log and the tracker's file are compared "
    "after every call. Identified by the history."
)
ASSUMPTIONS = [
    "number of jobs of a tracker for an empty batch, and its counters on distribution calls, are not asserted beyond monotony",
    "after an execution that fails in the device only monotony of a simulator's counters is asserted",
    "integer counts are Python ints (lists may hold numpy integers)",
]


# -- instrumented runners ----------------------------------------------------------


class DeviceError(Exception):
    pass


def _basis_bits(circ):
    """Outcome of a circuit made of X and I gates, or None."""
    bits = [0] * circ.n_qubits
    for op in circ.operations:
        if not isinstance(op, C.GateOperation) or op.gate.name not in ("X", "I"):
            return None
        if op.gate.name == "X":
            bits[op.qubit_indices[0]] ^= 1
    return tuple(bits)


class FakeDevice(BaseCircuitRunner):
    """Records every execution; recognisable results."""

    def __init__(self, rng, extra=0, fail_at=()):
        super().__init__()
        self.rng, self.extra, self.fail_at = rng, extra, set(fail_at)
        self.log = []  # (circuit, n, returned measurements) of successful runs
        self.attempts = 0

    def _make(self, circuit, n):
        self.attempts += 1
        if self.attempts in self.fail_at:
            raise DeviceError("device failed")
        if circuit.free_symbols:
            raise ValueError("unbound symbols")
        w = circuit.n_qubits
        bits = _basis_bits(circuit)
        shots = []
        for i in range(n + (self.rng.randint(0, self.extra) if self.extra else 0)):
            shots.append(bits if bits is not None else tuple(self.rng.randint(0, 1) for _ in range(w)))
        m = Measurements(shots)
        self.log.append((circuit, n, m))
        return m

    def _run_and_measure(self, circuit, n_samples):
        return self._make(circuit, n_samples)


class BatchDevice(FakeDevice):
    """Dedicated batch logic, counting the batch as one job."""

    def _run_batch_and_measure(self, batch, samples_per_circuit):
        out = [self._make(c, n) for c, n in zip(batch, samples_per_circuit)]
        self._n_circuits_executed += len(out)
        self._n_jobs_executed += 1
        return out


class NativeSim(BaseWavefunctionSimulator):
    """A simulator with a restricted native set, running on our own kernels."""

    def __init__(self, native, seed=None):
        super().__init__(seed=seed)
        self.native = native
        self.native_calls = []

    def is_natively_supported(self, operation):
        return self.native(operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.native_calls.append(circuit)
        state = np.asarray(initial_state, dtype=complex).ravel()
        for op in circuit.operations:
            assert self.native(op)
            state = ref.apply_matrix(state, ref.to_np(op.gate.matrix), op.qubit_indices, circuit.n_qubits)
        return state


class HookedSymbolic(SymbolicSimulator):
    """The library's simulator with a log of native executions."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.native_calls = []

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.native_calls.append(circuit)
        return super()._get_wavefunction_from_native_circuit(circuit, initial_state)


class Spy:
    """A runner (protocol only) recording what it is asked and what it returns."""

    def __init__(self, inner):
        self.inner = inner
        self.calls = []

    def run_and_measure(self, circuit, n_samples):
        r = self.inner.run_and_measure(circuit, n_samples)
        self.calls.append(("single", [circuit], n_samples, [r]))
        return r

    def run_batch_and_measure(self, circuits_batch, n_samples):
        r = self.inner.run_batch_and_measure(circuits_batch, n_samples)
        self.calls.append(("batch", list(circuits_batch), n_samples, list(r)))
        return r

    def get_measurement_outcome_distribution(self, circuit, n_samples):
        r = self.inner.get_measurement_outcome_distribution(circuit, n_samples)
        self.calls.append(("distribution", [circuit], n_samples, r))
        return r

    @property
    def n_jobs_executed(self):
        return self.inner.n_jobs_executed

    @property
    def n_circuits_executed(self):
        return self.inner.n_circuits_executed


# -- arguments -------------------------------------------------------------------


def _circuit(ctx, gates_only=True, allow_symbols=True):
    rng = ctx.rng
    r = rng.random()
    if r < 0.1:
        return C.Circuit([], n_qubits=rng.choice([0, 1, 2, 3])) if rng.random() < 0.7 else C.Circuit()
    if r < 0.45:
        n = rng.randint(1, 9 if getattr(rng, "big", False) else 5)
        ops = [rng.choice([C.X, C.X, C.I])(rng.randrange(n)) for _ in range(rng.randint(0, 30 if getattr(rng, "big", False) else 5))]
        return C.Circuit(ops, n_qubits=n) if rng.random() < 0.6 else C.Circuit(ops)
    if r < 0.52 and allow_symbols:
        return C.Circuit([C.RX(sympy.Symbol("theta"))(0), C.X(1)])
    n = rng.randint(1, 3)
    ops = []
    for _ in range(rng.randint(1, 5)):
        name = rng.choice(["H", "X", "RX", "RY", "RZ", "T", "S", "CNOT", "SWAP", "XX", "CZ", "I", "PHASE"])
        g = gen.make_builtin(rng, name, lambda: rng.uniform(-3, 3))
        if g.num_qubits > n:
            continue
        ops.append(g(*rng.sample(range(n), g.num_qubits)))
    if not gates_only and rng.random() < 0.4:
        ops.insert(rng.randint(0, len(ops)), C.MultiPhaseOperation(tuple(rng.uniform(-3, 3) for _ in range(2**n))))
        if rng.random() < 0.4:
            ops.insert(rng.randint(0, len(ops)), C.MultiPhaseOperation(tuple(rng.uniform(-3, 3) for _ in range(2**n))))
        return C.Circuit(ops, n_qubits=n)
    return C.Circuit(ops, n_qubits=n if rng.random() < 0.7 else None) if ops else C.Circuit([], n_qubits=n)


def _good_n(rng):
    if getattr(rng, "big", False) and rng.random() < 0.4:
        return rng.choice([100, 255, 256, 1000, 1025, 4097, *lits.ints_in(5, 6000)])
    return rng.choice([1, 1, 2, 3, 5, 8, 17, 33, rng.randint(1, 60)])


def _bad_n(rng):
    return rng.choice([0, 0, -1, -2, -1000])


def _container(rng, ns):
    r = rng.random()
    if r < 0.6:
        return list(ns)
    if r < 0.85:
        return tuple(ns)
    return np.array(ns, dtype=int)


def _bad_list(rng, k):
    kind = rng.choice(["short", "long", "zero", "negative", "empty", "last", "first", "cancel"])
    ns = [_good_n(rng) for _ in range(k)]
    if kind == "short" and k:
        ns = ns[:-1]
    elif kind == "long" or k == 0:
        ns = ns + [_good_n(rng) for _ in range(rng.randint(1, 2))]
    elif kind == "empty":
        ns = []
    elif kind == "last":
        ns[-1] = 0
    elif kind == "first":
        ns[0] = rng.choice([0, -1])
    elif kind == "cancel":
        ns[rng.randrange(k)] = -sum(ns)
    elif kind == "zero":
        ns[rng.randrange(k)] = 0
    else:
        ns[rng.randrange(k)] = -rng.randint(1, 9)
    return ns


# -- the monitor -----------------------------------------------------------------


class Monitor:
    """Counter model and execution log of one runner."""

    def __init__(self, runner):
        self.runner = runner
        self.counts = (runner.n_circuits_executed, runner.n_jobs_executed)

    def executed(self):
        r = self.runner
        if isinstance(r, FakeDevice):
            return r.attempts
        if isinstance(r, BaseWavefunctionSimulator):
            return len(r.native_calls)
        return len(r.inner_backend.calls)

    def read(self, ctx, what, **w):
        c = (self.runner.n_circuits_executed, self.runner.n_jobs_executed)
        ctx.check(all(isinstance(x, (int, np.integer)) for x in c), f"{what}: counters are not integers", counters=c, **w)
        ctx.check(c[0] >= self.counts[0] and c[1] >= self.counts[1], f"{what}: a counter decreased", before=self.counts, after=c, **w)
        delta = (c[0] - self.counts[0], c[1] - self.counts[1])
        self.counts = c
        ctx.ev("counter_readings")
        return delta


def _check_measurements(ctx, m, circ, n, what, /, **w):
    ctx.check(isinstance(m, Measurements), f"{what}: not measurements", got=m, **w)
    ctx.check(len(m.bitstrings) >= n, f"{what}: {len(m.bitstrings)} shots of {n} requested", circuit=circ, **w)
    width = circ.n_qubits
    ctx.check(all(len(b) == width for b in m.bitstrings), f"{what}: bitstrings of another length than the register",
              circuit=circ, width=width, got=m.bitstrings[:3], **w)
    bits = _basis_bits(circ)
    if bits is not None:
        ctx.check(all(tuple(b) == bits for b in m.bitstrings), f"{what}: result of another circuit", circuit=circ, want=bits,
                  got=m.bitstrings[:3], **w)
        ctx.ev("recognised_results")
    ctx.ev("results_checked")


def _segments(sim, circ):
    kinds = [sim.is_natively_supported(op) for op in circ.operations]
    groups = [k for k, _ in itertools.groupby(kinds)]
    return len([g for g in groups if g]), len(groups)


def _cost(runner, circuits, kind):
    """Circuits and jobs a successful call has to account for (None: unspecified)."""
    if isinstance(runner, BaseWavefunctionSimulator):
        s = [_segments(runner, c) for c in circuits]
        return sum(x[0] for x in s), sum(x[1] for x in s)
    if isinstance(runner, MeasurementTrackingBackend):
        if kind == "distribution":
            return None
        return len(circuits), 1 if kind == "single" or len(circuits) else None
    if isinstance(runner, BatchDevice) and kind == "batch":
        return len(circuits), 1
    return len(circuits), len(circuits)


def _tracker_file(path):
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return f.read()


def _check_record(ctx, rec, circ, m, bitstrings, /, **w):
    w = dict(record=rec, circuit=circ, **w)
    ctx.check(rec.get("data_type") == "measurement", "tracker record: data type", **w)
    ctx.check(rec["counts"] == m.get_counts(), "tracker record: counts differ from the measurements", want=m.get_counts(), **w)
    ctx.check(rec["number_of_shots"] == len(m.bitstrings), "tracker record: number of shots", want=len(m.bitstrings), **w)
    ctx.check(rec["circuit"] == json.loads(json.dumps(C.to_dict(circ))), "tracker record: another circuit", **w)
    ctx.check(C.circuit_from_dict(rec["circuit"]) == circ, "tracker record: the circuit does not load back", **w)
    ctx.check(rec["number_of_gates"] == len(circ.operations), "tracker record: number of gates", **w)
    if bitstrings:
        ctx.check([tuple(b) for b in rec["bitstrings"]] == [tuple(map(int, b)) for b in m.bitstrings], "tracker record: bitstrings", **w)
    else:
        ctx.check("bitstrings" not in rec or [tuple(b) for b in rec["bitstrings"]] == [tuple(b) for b in m.bitstrings],
                  "tracker record: bitstrings", **w)
    ctx.ev("tracker_records")


def _records(ctx, runner, /, **w):
    text = _tracker_file(runner.raw_data_file_name)
    ctx.check(text is not None, "tracker wrote no file", **w)
    return json.loads(text)["raw-data"]


def _make_runner(ctx):
    """(runner under test, may it run non-gate operations)"""
    rng = ctx.rng
    kind = rng.choice(["fake", "fake", "batch", "symbolic", "symbolic", "native", "native", "native", "tracker", "tracker", "tracker"])
    seed = rng.choice([None, 0, 7, rng.randint(0, 1000)])

    def basic(kind):
        if kind in ("fake", "batch"):
            fails = [i for i in range(1, 60) if rng.random() < 0.05] if rng.random() < 0.4 else []
            return (FakeDevice if kind == "fake" else BatchDevice)(rng, extra=rng.choice([0, 0, 3]), fail_at=fails)
        if kind == "symbolic":
            return HookedSymbolic(seed=seed)
        mode = rng.randrange(4)
        if mode == 0:
            native = lambda op: isinstance(op, C.GateOperation)  # noqa: E731
        elif mode == 1:
            names = set(rng.sample(["H", "X", "RX", "RY", "RZ", "T", "S", "CNOT", "SWAP", "XX", "CZ", "I", "PHASE"], 6))
            native = lambda op: isinstance(op, C.GateOperation) and op.gate.name in names  # noqa: E731
        elif mode == 2:
            native = lambda op: False  # noqa: E731
        else:
            native = lambda op: isinstance(op, C.GateOperation) and len(op.qubit_indices) == 1  # noqa: E731
        return NativeSim(native, seed=seed)

    if kind != "tracker":
        r = basic(kind)
        return r, isinstance(r, BaseWavefunctionSimulator)
    inner = basic(rng.choice(["fake", "batch", "symbolic", "native"]))
    path = os.path.join(ctx.tmpdir(), "raw.json")
    if rng.random() < 0.2:
        inner = MeasurementTrackingBackend(inner, os.path.join(ctx.tmpdir(), "inner.json"), rng.random() < 0.5)
    args = {}
    if rng.random() < 0.6:
        args["record_bitstrings"] = rng.random() < 0.5
    return MeasurementTrackingBackend(Spy(inner), path, **args), False


def _call_batch(runner, circuits, ns, rng):
    if rng.random() < 0.3:
        return runner.run_batch_and_measure(circuits, n_samples=ns)
    return runner.run_batch_and_measure(circuits, ns)


def bulk(ctx):
    """Long batches, many shots, long histories."""
    ctx.rng.big = True
    histories(ctx)
    ctx.ev("bulk_histories")


def histories(ctx):
    rng = ctx.rng
    runner, nongate = _make_runner(ctx)
    mon = Monitor(runner)
    tracker = isinstance(runner, MeasurementTrackingBackend)
    sim = isinstance(runner, BaseWavefunctionSimulator)
    ctx.check(mon.counts == (0, 0), "counters of a fresh runner", counters=mon.counts)
    label = type(runner).__name__
    ctx.note(label)
    pool = [_circuit(ctx, gates_only=not nongate) for _ in range(rng.randint(2, 5))]
    steps = rng.randint(6, 14 if not ctx.thorough else 30)
    for _ in range(steps):
        call = rng.choice(["single", "single", "batch", "batch", "batch", "distribution", "bad_single", "bad_batch", "bad_batch_int",
                           "bad_distribution", "state", "none"])
        pick = lambda: rng.choice(pool) if rng.random() < 0.6 else _circuit(ctx, gates_only=not nongate)  # noqa: E731
        executed = mon.executed()
        file_before = _tracker_file(runner.raw_data_file_name) if tracker else None
        spy_before = len(runner.inner_backend.calls) if tracker else 0
        w = dict(label=label, history=ctx.trace[-8:])

        if call.startswith("bad") or (call == "none" and not sim):
            circ = pick()
            k = rng.choice([0, 1, 2, 3]) if not getattr(rng, "big", False) else rng.choice([5, 20, 70, 300, 1100, 2600])
            batch = [pick() for _ in range(k)] if k < 100 else rng.choices(pool, k=k)
            if call == "bad_single":
                n = _bad_n(rng)
                fn = lambda: runner.run_and_measure(circ, n)  # noqa: E731
                arg = n
            elif call == "bad_batch_int":
                n = _bad_n(rng)
                fn = lambda: _call_batch(runner, batch, n, rng)  # noqa: E731
                arg = (k, n)
            elif call == "bad_batch":
                ns = _container(rng, _bad_list(rng, k))
                fn = lambda: _call_batch(runner, batch, ns, rng)  # noqa: E731
                arg = (k, ns)
            elif call == "bad_distribution":
                n = _bad_n(rng)
                fn = lambda: runner.get_measurement_outcome_distribution(circ, n)  # noqa: E731
                arg = n
            else:
                inner = runner
                while isinstance(inner, (MeasurementTrackingBackend, Spy)):
                    inner = inner.inner_backend if isinstance(inner, MeasurementTrackingBackend) else inner.inner
                if isinstance(inner, BaseWavefunctionSimulator):
                    continue  # exact distributions are legitimate there
                fn = lambda: runner.get_measurement_outcome_distribution(circ, None)  # noqa: E731
                arg = None
            ctx.note(call, arg)
            ctx.raises(ValueError, fn, f"invalid request ({call} {arg}) was not rejected with a ValueError", **w)
            ctx.check(mon.executed() == executed, f"invalid request ({call} {arg}): something was executed", **w)
            delta = mon.read(ctx, f"rejected {call}", **w)
            ctx.check(delta == (0, 0), f"rejected call ({call} {arg}) changed the counters", delta=delta, **w)
            if tracker:
                ctx.check(_tracker_file(runner.raw_data_file_name) == file_before, f"rejected call ({call}) wrote a record", **w)
            ctx.ev("rejected_calls")
            continue

        if call == "state":
            if not sim:
                continue
            circ = pick()
            if circ.free_symbols:
                continue
            ctx.note("wavefunction", circ)
            if rng.random() < 0.5:
                runner.get_wavefunction(circ)
            elif circ.n_qubits:
                runner.get_exact_expectation_values(circ, gen.pauli_sum(rng, circ.n_qubits, 2, real=True))
            delta = mon.read(ctx, "wavefunction call", **w)
            if circ.n_qubits or delta != (0, 0):
                ctx.check(delta == _cost(runner, [circ], "state"), "wavefunction call: counters", delta=delta,
                          want=_cost(runner, [circ], "state"), circuit=circ, **w)
            continue

        if call in ("distribution", "none"):
            circ, n = pick(), (_good_n(rng) if call == "distribution" else None)
            circuits = [circ]
            ctx.note("distribution", circ, n)
            if n is None and rng.random() < 0.5:
                fn = lambda: runner.get_measurement_outcome_distribution(circ)  # noqa: E731
            else:
                fn = lambda: runner.get_measurement_outcome_distribution(circ, n)  # noqa: E731
            kind = "distribution"
            if n is None and circ.free_symbols:
                continue
        elif call == "single":
            circ, n = pick(), _good_n(rng)
            circuits = [circ]
            ctx.note("single", circ, n)
            fn = lambda: runner.run_and_measure(circ, n)  # noqa: E731
            if rng.random() < 0.3:
                fn = lambda: runner.run_and_measure(circuit=circ, n_samples=n)  # noqa: E731
            kind = "single"
        else:
            k = rng.choice([0, 1, 2, 3, 4])
            if getattr(rng, "big", False):
                k = rng.choice([7, 16, 33, 70, *lits.ints_in(5, 80)])
                if isinstance(runner, FakeDevice):
                    k = rng.choice([k, k, 260, 1030])
            circuits = [pick() for _ in range(k)] if k < 100 else rng.choices(pool, k=k)
            if circuits and rng.random() < 0.3:
                circuits.append(rng.choice(circuits))
            ns = [_good_n(rng) for _ in circuits]
            arg = _container(rng, ns)
            if rng.random() < 0.4:
                arg = _good_n(rng)
                ns = [arg] * len(circuits)
            batch = tuple(circuits) if rng.random() < 0.3 else list(circuits)
            ctx.note("batch", circuits, arg)
            fn = lambda: _call_batch(runner, batch, arg, rng)  # noqa: E731
            kind = "batch"

        log_before = len(runner.log) if isinstance(runner, FakeDevice) else 0
        try:
            result, error = fn(), None
        except (DeviceError, ValueError) as e:
            result, error = None, e
        w["error"] = repr(error)
        symbolic = any(c.free_symbols for c in circuits)
        if error is not None:
            expected = symbolic or isinstance(error, DeviceError)
            ctx.check(expected, f"valid {kind} call was refused", circuits=circuits, **w)
            delta = mon.read(ctx, f"failed {kind}", **w)
            ctx.ev("failed_executions")
            if isinstance(runner, FakeDevice):
                ran = len(runner.log) - log_before
                if kind == "batch" and isinstance(runner, BatchDevice):
                    continue
                ctx.check(delta == (ran, ran), f"failed {kind}: counters do not match what was run", delta=delta, ran=ran, **w)
            elif sim:
                done = []
                for c in circuits:
                    if c.free_symbols:
                        break
                    done.append(c)
                ctx.check(delta == _cost(runner, done, kind), f"failed {kind}: counters do not match what was run", delta=delta,
                          want=_cost(runner, done, kind), **w)
            elif kind != "distribution":
                ctx.check(delta == (0, 0), f"failed {kind}: counters of the tracker", delta=delta, **w)
            continue
        ctx.check(not symbolic or kind == "distribution" and n is None, f"{kind} call with unbound symbols was executed", circuits=circuits, **w)
        ctx.ev("successful_calls")
        delta = mon.read(ctx, kind, **w)
        want = _cost(runner, circuits, kind)
        if want is not None and kind == "distribution" and circuits[0].n_qubits == 0:
            want = want  # executing a register of no qubits still counts what was run
        if want is not None:
            ctx.check(delta[0] == want[0], f"{kind}: circuits counter grew by {delta[0]}", want=want[0], circuits=circuits, **w)
            if want[1] is not None:
                ctx.check(delta[1] == want[1], f"{kind}: jobs counter grew by {delta[1]}", want=want[1], circuits=circuits, **w)
        if sim:
            ctx.check(mon.executed() - executed == want[0], f"{kind}: number of native executions", got=mon.executed() - executed, want=want[0],
                      circuits=circuits, **w)
        elif isinstance(runner, FakeDevice):
            ctx.check(mon.executed() - executed == len(circuits), f"{kind}: number of executions", circuits=circuits, **w)

        if kind == "distribution":
            ctx.check(isinstance(result, MeasurementOutcomeDistribution), "distribution: type", got=result, **w)
            d = result.distribution_dict
            width = circuits[0].n_qubits
            ctx.check(all(len(key) == width for key in d), "distribution: outcomes of another length than the register",
                      circuit=circuits[0], got=list(d)[:3], **w)
            ctx.check(abs(sum(d.values()) - 1) < 1e-6, "distribution: not normalised", got=d, **w)
            bits = _basis_bits(circuits[0])
            if bits is not None:
                got = {tuple(map(int, key)) for key, v in d.items() if v > 1e-12}
                ctx.check(got == {bits}, "distribution of a basis state", want=bits, got=d, **w)
        else:
            results = [result] if kind == "single" else list(result)
            ctx.check(len(results) == len(circuits), f"{kind}: number of results", circuits=circuits, got=len(results), **w)
            for i, (m, c) in enumerate(zip(results, circuits)):
                _check_measurements(ctx, m, c, n if kind == "single" else int(ns[i]), f"{kind} result {i}", **w)
            if isinstance(runner, FakeDevice):
                new = runner.log[log_before:]
                for i, ((c, _, m), r) in enumerate(zip(new, results)):
                    ctx.check(r is m or r.bitstrings == m.bitstrings, f"{kind}: result {i} is not what the device delivered", **w)
                    ctx.check(c == circuits[i], f"{kind}: circuits were run in another order", **w)

        if tracker:
            calls = runner.inner_backend.calls[spy_before:]
            ctx.check(len(calls) >= 1, "tracker did not call the wrapped runner", **w)
            records = _records(ctx, runner, **w)
            if kind == "distribution":
                inner_result = calls[-1][3]
                ctx.check(result is inner_result or result == inner_result, "tracker returned another distribution", **w)
                rec = records[-1]
                ctx.check(rec.get("distribution", repr(result)) == repr(result), "tracker record: another distribution", record=rec, **w)
                ctx.check(rec["number_of_shots"] == n and rec["circuit"] == json.loads(json.dumps(C.to_dict(circuits[0]))),
                          "tracker record of a distribution", record=rec, **w)
            else:
                inner_results = [r for c in calls for r in c[3]]
                inner_circuits = [x for c in calls for x in c[1]]
                ctx.check(inner_circuits == circuits, "tracker ran other circuits", want=circuits, got=inner_circuits, **w)
                ctx.check(len(inner_results) == len(results) and all(a is b or a.bitstrings == b.bitstrings for a, b in zip(results, inner_results)),
                          "tracker returned other measurements than the wrapped runner", **w)
                ctx.check(len(records) >= len(circuits), "tracker wrote too few records", records=len(records), **w)
                tail = records[len(records) - len(circuits):]
                for rec, c, m in zip(tail, circuits, results):
                    _check_record(ctx, rec, c, m, bool(runner.record_bitstrings), **w)
            ctx.ev("tracked_calls")
    ctx.ev("histories")
    ctx.nontrivial(ctx.trace)
    ctx.sample(" ; ".join(ctx.trace[:5]))


class Forgetful(BaseCircuitRunner):
    """Returns the basis state of a circuit and keeps nothing."""

    def _run_and_measure(self, circuit, n_samples):
        return Measurements([_basis_bits(circuit)] * n_samples)


def temporaries(ctx):
    """Circuits and batches that die right after their call, so that later ones take their addresses."""
    rng = ctx.rng
    path = os.path.join(ctx.tmpdir(), "t.json")
    kind = rng.choice(["tracker", "tracker", "fake", "symbolic"])
    inner = Forgetful() if rng.random() < 0.7 else SymbolicSimulator(seed=1)
    keep = rng.random() < 0.5
    runner = {"tracker": lambda: MeasurementTrackingBackend(inner, path, record_bitstrings=keep), "fake": Forgetful, "symbolic": lambda: SymbolicSimulator(seed=2)}[kind]()
    n = rng.choice([1, 2, 3])
    length = n + rng.randint(0, 2)
    seen = set()

    def fresh():
        ops = [(C.X if rng.random() < 0.5 else C.I)(q) for q in range(n)] + [rng.choice([C.X, C.I])(rng.randrange(n)) for _ in range(length - n)]
        return C.Circuit(ops, n_qubits=n)

    def one(how):
        cs = [fresh() for _ in range(1 if how != "batch" else rng.randint(1, 3))]
        seen.update(map(id, cs))
        ns = [rng.randint(1, 3) for _ in cs]
        w = dict(runner=kind, how=how, circuits=[str(c) for c in cs])
        if how == "single":
            ms = [runner.run_and_measure(cs[0], ns[0])]
        elif how == "batch":
            ms = runner.run_batch_and_measure(cs, ns)
        else:
            d = runner.get_measurement_outcome_distribution(cs[0], ns[0])
            got = {k for k, v in d.distribution_dict.items() if v > 1e-9}
            ctx.check(got == {_basis_bits(cs[0])}, "distribution of another circuit", got=d, **w)
            if kind == "tracker":
                rec = _records(ctx, runner, **w)
                ctx.check(rec[-1]["circuit"] == json.loads(json.dumps(C.to_dict(cs[0]))), "tracker record: another circuit", record=rec[-1], **w)
                ctx.check(C.circuit_from_dict(rec[-1]["circuit"]) == cs[0], "tracker record: the circuit does not load back", record=rec[-1], **w)
            return
        ctx.check(len(ms) == len(cs), "results of a batch", got=len(ms), **w)
        for c, m, k in zip(cs, ms, ns):
            _check_measurements(ctx, m, c, k, "short-lived circuit", **w)
        if kind == "tracker":
            rec = _records(ctx, runner, **w)
            ctx.check(len(rec) == len(cs), "records of a call", got=len(rec), **w)
            for c, m, r in zip(cs, ms, rec):
                _check_record(ctx, r, c, m, keep, **w)

    for how in (*(["single"] * 12), *(["batch"] * 8), *(["distribution"] * 8), *rng.choices(["single", "batch", "distribution"], k=8)):
        one(how)
        ctx.ev("temporaries")
    ctx.ev("addresses_reused", max(0, ctx.events["temporaries"] - len(seen)))
    ctx.nontrivial("temporaries", ctx.index)


REQUIRED_EVENTS = ("temporaries", "addresses_reused", "rejected_calls", "successful_calls", "failed_executions", "counter_readings", "recognised_results", "results_checked",
                   "tracker_records", "tracked_calls", "bulk_histories")
QUICK_SCALE = 3
WORKLOADS = [
    dict(name="histories", case=histories, quick=2500, thorough=30000),
    dict(name="temporaries", case=temporaries, quick=150, thorough=2000),
    dict(name="bulk", case=bulk, quick=80, thorough=1500, hang="inconclusive"),
]
