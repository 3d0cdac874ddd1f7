"""C20 - value-returning operations never modify their arguments."""
import collections
import contextlib
import io
import random
import warnings

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum import distributions as D
from orquestra.quantum import measurements as M
from orquestra.quantum import operators as O
from orquestra.quantum import utils as U
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.circuits import layouts
from orquestra.quantum.decompositions import U3GateToRotation, decompose_operations, decompose_orquestra_circuit
from orquestra.quantum.estimation import (
    calculate_exact_expectation_values,
    estimate_expectation_values_by_averaging,
    evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks,
    split_estimation_tasks_to_measure,
)
from orquestra.quantum.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from orquestra.quantum.operators._utils import evaluate_operator, evaluate_operator_list, get_pauliop_from_coeffs_and_labels, get_pauliop_from_matrix
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator
from orquestra.quantum.runners.trackers import MeasurementTrackingBackend
from orquestra.quantum.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction, sample_from_wavefunction, save_wavefunction

from vmon import core, gen
from vmon.snap import diff, same, snap

PROPERTY = "C20"
RULE = (
    "random histories of 12-40 public calls over pools of shared objects (circuits with custom, wrapped, symbolic and "
    "non-gate operations, gates, operations, Pauli terms and sums, measurements, distributions, wavefunctions, parities, "
    "expectation values, tasks) and of the callers' own containers (maps, lists, dicts, arrays, some read-only or of dict "
    "subclasses); results join the pools. Monitor: exact deep snapshot of every live object before and after each call, "
    "each call repeated at once and replayed at the end of the history, very long records and wide objects in some histories, returned reports scribbled over. Identified by "
    "operation and arguments."
)
ASSUMPTIONS = [
    "methods whose purpose is mutation are excluded: Measurements.add_counts, Wavefunction.__setitem__, and the documented in-place helpers normalize_measurement_outcome_distribution and expectation_values_to_real (neither takes one of the listed values)",
    "observable state is what public attributes, repr, len, iteration and hash show; private caches may change",
    "sampling operations are replayed with the same numpy and Python random state",
]

N_MAX = 3
ANGLES = [0.3, -1.2, 0.0, np.pi / 2, 2.5]
SYMS = [sympy.Symbol(s) for s in ("theta", "phi", "gamma")]
OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


class Entry:
    __slots__ = ("obj", "snap", "label")

    def __init__(self, obj, label):
        self.obj, self.label = obj, label
        self.snap = snap(obj)


class History:
    """Shared objects, their snapshots, and the log of calls made on them."""

    def __init__(self, ctx, n=N_MAX):
        self.ctx, self.rng = ctx, ctx.rng
        self.n = n  # register width; objects are many times longer when it exceeds N_MAX
        self.pool = collections.defaultdict(list)
        self.misc = []
        self.log = []
        self.n_files = 0
        self.calls = 0

    # -- objects -----------------------------------------------------------
    def add(self, kind, obj, label=None):
        e = Entry(obj, label or kind)
        self.pool[kind].append(e)
        return obj

    def own(self, obj, label="argument"):
        """A container made by the caller for one call; it must survive too."""
        self.misc.append(Entry(obj, label))
        return obj

    def pick(self, kind, where=None):
        items = [e.obj for e in self.pool[kind] if where is None or where(e.obj)]
        if items and (len(self.pool[kind]) >= 6 or self.rng.random() < 0.75):
            return self.rng.choice(items)
        for _ in range(30):
            obj = MAKERS[kind](self)
            if where is None or where(obj):
                return self.add(kind, obj)
        if items:
            return self.rng.choice(items)
        raise core.Skip(f"no {kind}")

    def path(self):
        self.n_files += 1
        return f"{self.ctx.tmpdir()}/f{self.n_files}"

    @property
    def big(self):
        return self.n > N_MAX

    def runnable(self, c):
        return _runnable(c, self.n)

    def width(self, *small):
        """A register width: one of the given small ones, or one near n."""
        return self.rng.choice(small) if not self.big else self.rng.randint(4, self.n + 2)

    # -- monitor -----------------------------------------------------------
    def entries(self):
        for items in self.pool.values():
            yield from items
        yield from self.misc

    def verify(self, label, entries, why):
        for e in entries:
            now = snap(e.obj)
            self.ctx.ev("snapshots_compared")
            if not same(e.snap, now):
                self.ctx.fail(f"{why}: {label} changed {e.label}", where=diff(e.snap, now), type=type(e.obj).__name__)

    def _invoke(self, fn, seed):
        np.random.seed(seed)
        random.seed(seed)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                r = fn()
                if hasattr(r, "__next__"):
                    r = list(r)
                return True, r
        except core.Violation:
            raise
        except Exception as e:  # noqa: BLE001 - what an operation refuses is not judged here
            return False, (type(e).__name__,)

    def call(self, label, fn, args, keep=None, scribble=None):
        """Run one public call under the monitor; args are pool or own objects."""
        ctx, rng = self.ctx, self.rng
        ids = {id(a) for a in args}
        involved = [e for e in self.entries() if id(e.obj) in ids]
        seed = rng.randrange(2**31)
        ctx.note(label, *[repr(a)[:120] for a in args])
        self.calls += 1
        ok, r = self._invoke(fn, seed)
        ctx.ev("calls")
        ctx.ev(f"op:{self.current}" if ok else "refused_calls")
        self.verify(label, involved, "argument modified")
        want = snap(r)
        if rng.random() < 0.6:
            ok2, r2 = self._invoke(fn, seed)
            self.compare(label, (ok, want), (ok2, snap(r2)), "called twice in a row")
            self.verify(label, involved, "argument modified by the second call")
        if ok:
            ctx.nontrivial(label, [repr(e.snap)[:400] for e in involved])
            if scribble and rng.random() < 0.5:
                scribble(r)
                ctx.ev("scribbled_reports")
                self.verify(f"editing the report of {label}", involved, "report shares state with an argument")
                ok2, r = self._invoke(fn, seed)
                self.compare(label, (ok, want), (ok2, snap(r)), "called again after the caller edited the earlier report")
            if keep and rng.random() < 0.5 and len(self.pool[keep]) < 9 and (self.big and keep != "gate" or SMALL[keep](r)) and FIT[keep](r):
                self.add(keep, r, f"result of {label}")
            elif not any(r is e.obj for e in self.entries()):
                self.misc.append(Entry(r, f"result of {label}"))
        self.log.append((label, fn, seed, ok, want))
        if rng.random() < 0.2:
            self.verify(f"a call up to {label}", self.entries(), "object modified")
        return r if ok else None

    def compare(self, label, a, b, why):
        self.ctx.ev("repeated_calls")
        if a[0] != b[0]:
            self.ctx.fail(f"{why}: {label} succeeds only once", first=a[1], second=b[1])
        if not same(a[1], b[1], 1e-9):
            self.ctx.fail(f"{why}: {label} gives another result", where=diff(a[1], b[1]))

    def finish(self):
        log = list(self.log)
        self.rng.shuffle(log)
        for label, fn, seed, ok, want in log[:30]:
            ok2, r = self._invoke(fn, seed)
            self.compare(label, (ok, want), (ok2, snap(r)), "replayed at the end of the history")
            self.ctx.ev("replayed_calls")
        self.verify("the history", self.entries(), "object modified")


# -- objects ---------------------------------------------------------------------


def _mk_gate(h):
    rng = h.rng
    r = rng.random()
    if r < 0.3:
        g = gen.make_builtin(rng, rng.choice(["RX", "RY", "PHASE", "CPHASE", "XX", "U3"]), lambda: rng.choice([rng.choice(SYMS), gen.expression(rng, SYMS[:2], 1), rng.choice(ANGLES)]))
    elif r < 0.45:
        g = gen.custom_parametric(h.ctx, names=["theta", "phi", "gamma", "x"])
        g = g[0](*[rng.choice([rng.choice(ANGLES), rng.choice(SYMS)]) for _ in range(g[1])])
    elif r < 0.6:
        return gen.wrapped_gate(h.ctx, max_qubits=3, param=lambda: rng.choice(ANGLES), allow=("ctrl", "dag", "pow", "exp"))
    else:
        return gen.base_gate(h.ctx, 2, param=lambda: rng.choice(ANGLES))
    r = rng.random()
    if r < 0.2 and g.num_qubits < 3:
        g = g.controlled(1)
    elif r < 0.4:
        g = g.dagger
    return g


def _mk_op(h):
    g = h.pick("gate") if h.rng.random() < 0.6 else _mk_gate(h)
    n = max(h.n, g.num_qubits)
    return g(*h.rng.sample(range(n), g.num_qubits))


def _multiphase(h, n, symbolic=True):
    rng = h.rng
    return C.MultiPhaseOperation(tuple(rng.choice(SYMS) if symbolic and rng.random() < 0.2 else rng.choice(ANGLES) for _ in range(2**n)))


def _mk_circuit(h):
    rng = h.rng
    if h.big and rng.random() < 0.6:
        gates = [gen.base_gate(h.ctx, 2, param=lambda: rng.choice(ANGLES)) for _ in range(rng.randint(8, 40))]
        return C.Circuit(h.own([g(*rng.sample(range(h.n), g.num_qubits)) for g in gates], "operations passed to Circuit"), n_qubits=h.n)
    ops = [h.pick("op") if rng.random() < 0.5 else _mk_op(h) for _ in range(rng.randint(8, 40) if h.big else rng.choice([0, 1, 2, 3, 4]))]
    if rng.random() < 0.15:
        n = max([h.n] + [max(o.qubit_indices) + 1 for o in ops])
        ops.insert(rng.randint(0, len(ops)), _multiphase(h, n) if rng.random() < 0.7 else C.ResetOperation(rng.randrange(n)))
    ops = h.own(ops, "operations passed to Circuit")
    if rng.random() < 0.4:
        return C.Circuit(ops, n_qubits=max([1] + [max(o.qubit_indices) + 1 for o in ops]) + rng.randint(0, 1))
    return C.Circuit(ops)


def _mk_term(h):
    rng = h.rng
    ops = gen.pauli_ops(rng, h.n, letters=rng.choice(["XYZ", "Z", "XYZI"]))
    c = rng.choice([gen.coefficient(rng), gen.coefficient(rng), 1, 2.0, 0.0, 1j, np.float64(0.5)])
    if rng.random() < 0.5:
        return O.PauliTerm(h.own(ops, "dict passed to PauliTerm"), c)
    items = h.own([(p, q) for q, p in ops.items()], "list passed to from_iterable")
    return O.PauliTerm.from_iterable(items, c)


def _mk_sum(h):
    rng = h.rng
    if rng.random() < 0.2:
        return gen.pauli_sum(rng, h.n)
    if rng.random() < 0.3:
        return gen.ising_sum(rng, h.n)
    terms = [h.pick("term") if rng.random() < 0.7 else _mk_term(h) for _ in range(rng.randint(12, 60) if h.big else rng.randint(0, 4))]
    if terms and rng.random() < 0.4:
        t = rng.choice(terms)
        terms.append(rng.choice([t, t.copy(), t.copy(new_coefficient=-t.coefficient)]))
    terms = tuple(terms) if rng.random() < 0.2 else h.own(terms, "terms passed to PauliSum")
    return O.PauliSum(terms)


def _bits(rng, n):
    return tuple(rng.randint(0, 1) for _ in range(n))


def _mk_meas(h):
    rng = h.rng
    n = h.width(1, 2, 3, 3, 3)
    bits = [_bits(rng, n) for _ in range(rng.randint(50, 400) if h.big else rng.choice([0, 1, 2, 5, 8, 12, 40]))]
    r = rng.random()
    if r < 0.2:
        bits = [tuple(np.int8(b) for b in t) for t in bits]
    if r < 0.35:
        return M.Measurements.from_counts(h.own(dict(collections.Counter("".join(map(str, map(int, t))) for t in bits)), "counts"))
    return M.Measurements(h.own(bits, "bitstrings passed to Measurements"))


def _dist_dict(h, n=None, cardinality=2):
    rng = h.rng
    n = n or h.width(1, 2, 3, 3)
    keys = list({tuple(rng.randrange(cardinality) for _ in range(n)) for _ in range(rng.randint(20, 150) if h.big else rng.randint(1, 7))})
    w = [rng.choice([rng.random() + 0.01, rng.randint(1, 5), 0.25]) for _ in keys]
    if rng.random() < 0.6:
        s = sum(w)
        w = [x / s for x in w]
    elif rng.random() < 0.3:
        w[0] = 0 if len(w) > 1 else w[0]
    items = zip(keys, w)
    if rng.random() < 0.3 and cardinality <= 10:
        items = [("".join(map(str, k)), v) for k, v in items]
    cls = rng.choice([dict, dict, collections.OrderedDict, collections.Counter])
    return h.own(cls(dict(items)), "dict passed to a distribution")


def _mk_dist(h):
    rng = h.rng
    d = _dist_dict(h, cardinality=rng.choice([2, 2, 2, 3, 12]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return D.MeasurementOutcomeDistribution(d, normalize=rng.random() < 0.7)


def _array(h, n, complex_only=False):
    a = gen.state(h.ctx, n)
    if complex_only:
        a = a.astype(complex)
    if h.rng.random() < 0.3:
        a.flags.writeable = False
    return h.own(a, "amplitude array")


def _mk_wf(h):
    rng = h.rng
    r = rng.random()
    if r < 0.2:
        a, b = SYMS[:2]
        return Wavefunction(sympy.Matrix(rng.choice([[a, b], [a, 0.5, b, 0.5], [sympy.cos(a), sympy.sin(a)], [0.6, a]])))
    if r < 0.3:
        n = h.width(3)
        return Wavefunction.dicke_state(n, rng.randint(0, n))
    if r < 0.4:
        return Wavefunction(h.own([1.0, 0, 0, 0] if rng.random() < 0.5 else [0.6, 0.8j], "list of amplitudes"))
    return Wavefunction(_array(h, h.width(1, 2, 3, 3)))


def _mk_ev(h):
    rng = h.rng
    k = rng.randint(10, 30) if h.big else rng.randint(1, 4)
    npr = h.ctx.np
    vals = npr.normal(size=k) + (1j * npr.normal(size=k) if rng.random() < 0.3 else 0)
    corr = [npr.normal(size=(k, k))] if rng.random() < 0.7 else rng.choice([None, []])
    cov = [npr.normal(size=(k, k))] if rng.random() < 0.7 else None
    return M.ExpectationValues(vals, corr, cov)


def _mk_par(h):
    rng = h.rng
    k = rng.randint(10, 30) if h.big else rng.randint(1, 4)
    vals = h.ctx.np.integers(1, rng.choice([5, 200]), size=(k, 2))
    return M.Parities(vals, [h.ctx.np.integers(0, 9, size=(k, k, 2))] if rng.random() < 0.6 else None)


def _mk_smap(h):
    rng = h.rng
    syms = rng.sample(SYMS, rng.randint(0, 3)) + ([sympy.Symbol("unused")] if rng.random() < 0.3 else [])
    items = {s: rng.choice([rng.choice(ANGLES), rng.randint(-2, 2), np.float64(0.7), sympy.pi / 3, rng.choice(SYMS), rng.choice(SYMS) + 1]) for s in syms}
    cls = rng.choice([dict, dict, collections.OrderedDict, lambda d: collections.defaultdict(float, d)])
    return cls(items)


def _mk_task(h):
    rng = h.rng
    c = h.pick("circuit", lambda c: c.n_qubits == h.n and _gates_only(c))
    return EstimationTask(h.pick(rng.choice(["term", "sum"]), lambda o: o.n_qubits <= h.n), c, rng.choice([None, 0, 1, 20]))


MAKERS = dict(gate=_mk_gate, op=_mk_op, circuit=_mk_circuit, term=_mk_term, sum=_mk_sum, meas=_mk_meas, dist=_mk_dist, wf=_mk_wf, ev=_mk_ev, par=_mk_par, smap=_mk_smap, task=_mk_task)


def _gates_only(c):
    return all(isinstance(o, C.GateOperation) for o in c.operations)


def _numeric(c):
    return not c.free_symbols


def _tame_gate(g, depth=0):
    if hasattr(g, "wrapped_gate"):
        return depth < 3 and _tame_gate(g.wrapped_gate, depth + 1)
    return True


def _tame(c):
    return all(_tame_gate(o.gate) for o in c.operations if hasattr(o, "gate"))


SMALL = dict(
    gate=lambda g: g.num_qubits <= 3 and _tame_gate(g),
    op=lambda o: True,
    circuit=lambda c: c.n_qubits <= 4 and len(c.operations) <= 6 and _tame(c),
    term=lambda t: isinstance(t, O.PauliTerm) and abs(t.coefficient) < 1e6,
    sum=lambda s: isinstance(s, O.PauliSum) and len(s) <= 8 and all(abs(t.coefficient) < 1e6 for t in s.terms),
    meas=lambda m: len(m.bitstrings) <= 60,
    dist=lambda d: True,
    wf=lambda w: True,
    ev=lambda e: True,
    par=lambda p: True,
)

FIT = collections.defaultdict(lambda: lambda x: True)  # what the large histories keep
FIT.update(
    op=lambda o: o.num_qubits <= 3 if hasattr(o, "num_qubits") else True,
    circuit=lambda c: c.n_qubits <= 7 and len(c.operations) <= 120 and _tame(c),
    term=SMALL["term"],
    sum=lambda s: isinstance(s, O.PauliSum) and len(s) <= 80 and all(abs(t.coefficient) < 1e6 for t in s.terms),
    meas=lambda m: len(m.bitstrings) <= 600,
)


# -- circuits --------------------------------------------------------------------


@op
def circuit_add_circuit(h):
    a, b = h.pick("circuit"), h.pick("circuit")
    if h.rng.random() < 0.2:
        b = a
    h.call("circuit + circuit", lambda: a + b, [a, b], keep="circuit")


@op
def circuit_add_operation(h):
    a, b = h.pick("circuit"), h.pick("op")
    h.call("circuit + operation", lambda: a + b, [a, b], keep="circuit")
    if h.big:
        # longer than what the other operations could afford
        g = [rng_gate(q) for q in range(h.n) for rng_gate in (C.H, C.RX(0.3), C.T)]
        c = h.own(C.Circuit(h.rng.choices(g, k=h.rng.choice([33, 65, 100, 129, 200, 257, 300]))), "long circuit")
        x = h.rng.choice(g)
        r = h.call("long circuit + operation", lambda: c + x, [c, x])
        if r is not None:
            h.own(r, "extended circuit")
            h.call("extended circuit + operation", lambda: r + x, [r, c, x])
        h.call("long circuit + circuit", lambda: c + a, [c, a])


@op
def circuit_iadd(h):
    a, b = h.pick("circuit"), h.pick(h.rng.choice(["op", "circuit"]))

    def run():
        alias = a
        alias += b
        return alias

    h.call("alias += operations", run, [a, b], keep="circuit")


@op
def circuit_construct(h):
    c = h.pick("circuit")
    ops = h.own(list(c.operations), "operations passed to Circuit")
    h.call("Circuit(list)", lambda: C.Circuit(ops, n_qubits=c.n_qubits), [ops, c], keep="circuit")
    probe = list(c.operations)
    d = C.Circuit(probe, n_qubits=c.n_qubits)
    before = snap(d)
    probe.append(C.X(0))
    h.ctx.ev("constructor_copies")
    h.ctx.check(same(before, snap(d)), "a circuit follows later edits of the list it was built from", circuit=d)


@op
def circuit_bind(h):
    c, m = h.pick("circuit"), h.pick("smap")
    h.call("circuit.bind", lambda: c.bind(m), [c, m], keep="circuit")


@op
def circuit_inverse(h):
    c = h.pick("circuit", _gates_only)
    h.call("circuit.inverse", lambda: c.inverse(), [c], keep="circuit")


@op
def circuit_controlled(h):
    c = h.pick("circuit", lambda c: _gates_only(c) and c.n_qubits <= h.n)
    k = h.rng.randint(0, c.n_qubits)
    h.call("circuit.controlled", lambda: c.controlled(k), [c], keep="circuit")


def _fill(a):
    if isinstance(a, np.ndarray):
        if a.flags.writeable:
            a[...] = 7
    elif isinstance(a, dict):
        for v in list(a.values()):
            if isinstance(v, (dict, list)):
                _fill(v)
        a.clear()
        a["scribble"] = 1
    elif isinstance(a, list):
        for v in a:
            if isinstance(v, (dict, list)):
                _fill(v)
        del a[:]
        a.append("scribble")
    elif isinstance(a, set):
        a.clear()
        a.add(999)


@op
def circuit_to_unitary(h):
    c = h.pick("circuit", lambda c: c.n_qubits <= h.n and (_numeric(c) or (len(c.operations) <= 2 and c.n_qubits <= 3)))
    h.call("circuit.to_unitary", lambda: c.to_unitary(), [c], scribble=_fill)


@op
def circuit_reports(h):
    c = h.pick("circuit")
    which = h.rng.randrange(6)
    if which == 0:
        h.call("circuit.free_symbols", lambda: c.free_symbols, [c], scribble=_fill)
    elif which == 1:
        h.call("circuit.collect_custom_gate_definitions", lambda: c.collect_custom_gate_definitions(), [c], scribble=_fill)
    elif which == 2:
        d = h.pick("circuit")
        h.call("circuit == circuit", lambda: (c == d, d == c, c != d), [c, d])
    elif which == 3:
        h.call("repr(circuit)", lambda: (repr(c), str(c), c.n_qubits), [c])
    elif which == 4:
        h.call("circuit.operations", lambda: [o for o in c.operations], [c])
    else:
        h.call("circuit == other", lambda: (c == 1, c != "x"), [c])


@op
def circuit_serialise(h):
    c = h.pick("circuit", _gates_only)
    which = h.rng.randrange(5)
    if which == 0:
        d = h.call("to_dict(circuit)", lambda: C.to_dict(c), [c], scribble=_fill)
        if isinstance(d, dict) and "schema" in d:
            h.own(d, "serialised circuit")
            h.call("circuit_from_dict", lambda: C.circuit_from_dict(d), [d], keep="circuit")
    elif which == 1:
        cs = h.own([c, h.pick("circuit", _gates_only)], "list of circuits")
        d = h.call("to_dict(circuits)", lambda: C.to_dict(cs), [cs, *cs], scribble=_fill)
        if isinstance(d, dict) and "schema" in d:
            h.own(d, "serialised circuits")
            h.call("circuitset_from_dict", lambda: C.circuitset_from_dict(d), [d])
    elif which == 2:
        p = h.path()

        def run():
            C.save_circuit(c, p)
            return open(p).read(), C.load_circuit(p)

        h.call("save_circuit", run, [c])
    elif which == 3:
        cs = h.own([c, h.pick("circuit", _gates_only)], "list of circuits")
        p = h.path()

        def run():
            C.save_circuitset(cs, p)
            return open(p).read(), C.load_circuitset(p)

        h.call("save_circuitset", run, [cs, *cs])
    else:
        o = h.pick("op")
        h.call("to_dict(operation)", lambda: C.to_dict(o.gate), [o], scribble=_fill)


@op
def circuit_split(h):
    c = h.pick("circuit")
    q = h.rng.randrange(3)
    h.call("split_circuit", lambda: [(v, s) for v, s in C.split_circuit(c, lambda o: q in o.qubit_indices)], [c])


@op
def circuit_generators(h):
    rng = h.rng
    c = h.pick("circuit")
    which = rng.randrange(4)
    qs = rng.sample(range(h.n + 1), rng.randint(1, h.n))
    if rng.random() < 0.2:
        qs.append(qs[0])
    qs = h.own(qs, "qubit list")
    k = len(set(qs))
    if which == 0:
        h.call("apply_gate_to_qubits", lambda: C.apply_gate_to_qubits(c, qs, C.H), [c, qs], keep="circuit")
    elif which == 1:
        g = rng.choice([C.RX, C.U3])
        p = h.ctx.np.normal(size=(k, 3 if g is C.U3 else 1))
        p = h.own(p if rng.random() < 0.5 else p.tolist(), "parameters")
        h.call("apply_gate_to_qubits(parameters)", lambda: C.apply_gate_to_qubits(c, qs, g, p), [c, qs, p], keep="circuit")
    elif which == 2:
        p = h.own(h.ctx.np.normal(size=(h.n, 1)), "parameters")
        h.call("create_layer_of_gates", lambda: C.create_layer_of_gates(h.n, C.RY, p), [p], keep="circuit")
    else:
        h.call("add_ancilla_register", lambda: C.add_ancilla_register(c, 1), [c], keep="circuit")


class _Rule:
    """A rule replacing X by H Z H, to go with the library's own."""

    def predicate(self, operation):
        return isinstance(operation, C.GateOperation) and operation.gate == C.X

    def production(self, operation):
        q = operation.qubit_indices
        return [C.H(*q), C.Z(*q), C.H(*q)]


@op
def circuit_decompose(h):
    rng = h.rng
    c = h.pick("circuit", _gates_only)
    if rng.random() < 0.7:
        c = h.add("circuit", C.Circuit([*c.operations, C.U3(0.1, rng.choice(ANGLES), rng.choice(SYMS))(0), C.U3(0.4, 1.1, 0.2).controlled(1)(1, 0), C.X(1)]))
    rules = h.own(rng.choice([[U3GateToRotation()], [_Rule(), U3GateToRotation()], (U3GateToRotation(), _Rule()), []]), "rules")
    if rng.random() < 0.5:
        h.call("decompose_orquestra_circuit", lambda: decompose_orquestra_circuit(c, rules), [c, rules], keep="circuit")
    else:
        ops = h.own(list(c.operations), "operations")
        h.call("decompose_operations", lambda: decompose_operations(ops, rules), [ops, rules, c])


# -- running circuits ------------------------------------------------------------


def _runnable(c, n=3):
    return _numeric(c) and 0 < c.n_qubits <= n and not any(isinstance(o, C.ResetOperation) for o in c.operations) and all(len(o.params) == 2**c.n_qubits for o in c.operations if isinstance(o, C.MultiPhaseOperation))


@op
def run_wavefunction(h):
    rng = h.rng
    c = h.pick("circuit", h.runnable)
    sim = SymbolicSimulator()
    which = rng.randrange(3)
    if which == 0:
        h.call("get_wavefunction", lambda: sim.get_wavefunction(c), [c], keep="wf", scribble=lambda w: _fill(w.amplitudes))
    elif which == 1:
        a = _array(h, c.n_qubits)
        h.call("get_wavefunction(initial_state)", lambda: sim.get_wavefunction(c, a), [c, a])
    else:
        cs = h.pick("circuit", lambda c: _gates_only(c) and 0 < c.n_qubits <= 2 and len(c.operations) <= 2)
        a = h.own(sympy.Matrix([SYMS[0]] + [0] * (2**cs.n_qubits - 1)) if rng.random() < 0.5 else np.eye(2**cs.n_qubits)[0], "initial state")
        h.call("get_wavefunction(symbolic)", lambda: sim.get_wavefunction(cs, a), [cs, a])


@op
def run_samples(h):
    rng = h.rng
    c = h.pick("circuit", h.runnable)
    seed = rng.randrange(1000)
    which = rng.randrange(6)
    if which == 0:
        h.call("run_and_measure", lambda: SymbolicSimulator(seed=seed).run_and_measure(c, 9), [c], keep="meas")
    elif which == 1:
        h.call("get_measurement_outcome_distribution", lambda: SymbolicSimulator(seed=seed).get_measurement_outcome_distribution(c), [c], keep="dist")
    elif which == 2:
        h.call("get_measurement_outcome_distribution(n)", lambda: SymbolicSimulator(seed=seed).get_measurement_outcome_distribution(c, 11), [c], keep="dist")
    elif which == 3:
        d = h.pick("circuit", h.runnable)
        batch = h.own([c, d, c], "batch")
        ns = h.own(rng.choice([5, [3, 4, 5], (7, 1, 2)]), "numbers of samples")
        h.call("run_batch_and_measure", lambda: SymbolicSimulator(seed=seed).run_batch_and_measure(batch, ns), [batch, ns, c, d])
    elif which == 4:
        o = h.pick(rng.choice(["term", "sum"]), lambda o: o.n_qubits <= c.n_qubits)
        h.call("get_exact_expectation_values", lambda: SymbolicSimulator().get_exact_expectation_values(c, o), [c, o])
    else:
        g = h.pick("circuit", lambda c: h.runnable(c) and _gates_only(c))
        batch = h.own([g, g], "batch")
        p = h.path()

        def run():
            t = MeasurementTrackingBackend(SymbolicSimulator(seed=seed), p, record_bitstrings=True)
            return t.run_and_measure(g, 4), t.run_batch_and_measure(batch, 3), t.get_measurement_outcome_distribution(g, 5)

        h.call("tracked runs", run, [g, batch])


@op
def run_estimation(h):
    rng = h.rng
    tasks = [h.pick("task") for _ in range(rng.randint(0, 3))]
    which = rng.randrange(5)
    if which == 0:
        tasks = h.own(tasks, "tasks")
        maps = h.own([h.pick("smap") for _ in tasks], "symbol maps")
        h.call("evaluate_estimation_circuits", lambda: evaluate_estimation_circuits(tasks, maps), [tasks, maps, *tasks, *maps], scribble=_fill)
    elif which == 1:
        tasks = h.own(tasks, "tasks")
        h.call("split_estimation_tasks_to_measure", lambda: split_estimation_tasks_to_measure(tasks), [tasks, *tasks], scribble=lambda r: [_fill(x) for x in r])
    elif which == 2:
        tasks = h.own([t for t in tasks if t.operator.is_constant or t.number_of_shots in (0, None)], "tasks")
        h.call("evaluate_non_measured_estimation_tasks", lambda: evaluate_non_measured_estimation_tasks(tasks), [tasks, *tasks])
    else:
        tasks = [t for t in tasks if _numeric(t.circuit)]
        k = rng.randint(1, 2)
        for _ in range(k):
            o = h.add("sum", gen.ising_sum(rng, h.n, 2))
            c = h.pick("circuit", lambda c: h.runnable(c) and c.n_qubits == h.n)
            tasks.append(EstimationTask(o, c, rng.randint(1, 20)))
        tasks = h.own([t for t in tasks if t.number_of_shots is not None and t.operator.is_ising], "tasks")
        if which == 3:
            h.call("estimate_expectation_values_by_averaging", lambda: estimate_expectation_values_by_averaging(SymbolicSimulator(seed=3), tasks), [tasks, *tasks, *[t.circuit for t in tasks], *[t.operator for t in tasks]])
        else:
            h.call("calculate_exact_expectation_values", lambda: calculate_exact_expectation_values(SymbolicSimulator(), tasks), [tasks, *tasks, *[t.circuit for t in tasks], *[t.operator for t in tasks]])


# -- gates -----------------------------------------------------------------------


@op
def gate_derive(h):
    rng = h.rng
    g = h.pick("gate")
    which = rng.randrange(7)
    if which == 0:
        m = h.pick("smap")
        h.call("gate.bind", lambda: g.bind(m), [g, m], keep="gate")
    elif which == 1:
        p = tuple(rng.choice([rng.choice(ANGLES), rng.choice(SYMS)]) for _ in g.params)
        h.call("gate.replace_params", lambda: g.replace_params(p), [g], keep="gate")
    elif which == 2:
        h.call("gate.controlled", lambda: g.controlled(rng.choice([1])), [g], keep="gate")
    elif which == 3:
        h.call("gate.dagger", lambda: g.dagger, [g], keep="gate")
    elif which == 4:
        e = rng.choice([2, -1, 0.5, 3])
        h.call("gate.power", lambda: g.power(e), [g])
    elif which == 5:
        h.call("gate.exp", lambda: g.exp, [g])
    else:
        qs = rng.sample(range(max(h.n, g.num_qubits)), g.num_qubits)
        h.call("gate(qubits)", lambda: g(*qs), [g], keep="op")


@op
def gate_reports(h):
    g = h.pick("gate", _tame_gate)
    which = h.rng.randrange(5)
    if which <= 1:
        h.call("gate.matrix", lambda: g.matrix, [g])
    elif which == 2:
        k = h.pick("gate")
        h.call("gate == gate", lambda: (g == k, k == g, g != k, g == g), [g, k])
    elif which == 3:
        h.call("gate reports", lambda: (str(g), repr(g), g.name, g.num_qubits, g.params, set(g.free_symbols)), [g])
    else:
        o = h.pick("op")
        k = h.pick("op")
        h.call("operation reports", lambda: (str(o), o.params, o.qubit_indices, set(o.free_symbols), o == k), [o, k])


@op
def operation_derive(h):
    rng = h.rng
    o = h.pick("op")
    which = rng.randrange(5)
    if which == 0:
        m = h.pick("smap")
        h.call("operation.bind", lambda: o.bind(m), [o, m], keep="op")
    elif which == 1:
        p = tuple(rng.choice(ANGLES) for _ in o.params)
        h.call("operation.replace_params", lambda: o.replace_params(p), [o], keep="op")
    elif which == 2:
        n = max(o.qubit_indices) + 1
        h.call("operation.lifted_matrix", lambda: o.lifted_matrix(n), [o], scribble=_fill)
    elif which == 3:
        o = h.pick("op", lambda o: not set(o.free_symbols))
        a = _array(h, max(o.qubit_indices) + 1)
        h.call("operation.apply", lambda: o.apply(a), [o, a], scribble=_fill)
    else:
        n = max(o.qubit_indices) + 1
        a = h.own(sympy.Matrix([SYMS[1]] + [0] * (2**n - 1)), "symbolic amplitudes")
        if n <= 2:
            h.call("operation.apply(symbolic)", lambda: o.apply(a), [o, a])


@op
def multiphase(h):
    rng = h.rng
    n = rng.randint(3, h.n) if h.big else rng.choice([1, 2])
    o = h.own(_multiphase(h, n, rng.random() < 0.5), "MultiPhaseOperation")
    which = rng.randrange(3)
    if which == 0:
        m = h.pick("smap")
        h.call("MultiPhaseOperation.bind", lambda: o.bind(m), [o, m])
    elif which == 1:
        a = _array(h, n, complex_only=True)
        h.call("MultiPhaseOperation.apply", lambda: o.apply(a), [o, a], scribble=_fill)
    else:
        p = tuple(rng.choice(ANGLES) for _ in o.params)
        h.call("MultiPhaseOperation.replace_params", lambda: (o.replace_params(p), set(o.free_symbols), o.qubit_indices), [o])


# -- operators -------------------------------------------------------------------


def _pauli(h, where=None):
    return h.pick(h.rng.choice(["term", "sum", "sum"]), where)


def _num(rng):
    return rng.choice([2, -1, 0.5, 1j, 0, 1.0, 3 - 2j, rng.uniform(-2, 2)])


@op
def pauli_binary(h):
    rng = h.rng
    a, b = _pauli(h), _pauli(h)
    r = rng.random()
    if r < 0.1:
        b = a
    elif r < 0.2:
        b = _num(rng)
    name, f = rng.choice([("+", lambda: a + b), ("-", lambda: a - b), ("*", lambda: a * b)])
    keep = "sum"
    h.call(f"operator {name} operator", f, [a, b], keep=keep)


@op
def pauli_number(h):
    rng = h.rng
    a, x = _pauli(h), _num(rng)
    if x == 0:
        x = 0.0
    name, f = rng.choice(
        [("number + operator", lambda: x + a), ("number - operator", lambda: x - a), ("number * operator", lambda: x * a), ("operator / number", lambda: a / (x or 2)), ("operator * number", lambda: a * x), ("operator == number", lambda: a == x), ("sum([...])", lambda: sum([a, a]))]
    )
    h.call(name, f, [a], keep="term" if isinstance(a, O.PauliTerm) and "*" in name else "sum")


@op
def pauli_inplace(h):
    rng = h.rng
    a, b = _pauli(h), _pauli(h)
    which = rng.randrange(4)

    def run():
        alias = a
        if which == 0:
            alias += b
        elif which == 1:
            alias -= b
        elif which == 2:
            alias *= b
        else:
            alias /= 2
        return alias

    h.call("alias op= operator", run, [a, b], keep="sum")


@op
def pauli_power(h):
    a = _pauli(h, lambda a: len(a) <= 3)
    k = h.rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    h.call("operator ** k", lambda: a**k, [a], keep="term" if isinstance(a, O.PauliTerm) else "sum")


@op
def pauli_simplify(h):
    s = h.pick("sum")
    h.call("simplify", lambda: s.simplify(), [s], keep="sum")


@op
def pauli_reports(h):
    rng = h.rng
    a, b = _pauli(h), _pauli(h)
    which = rng.randrange(6)
    if which == 0:
        h.call("operator == operator", lambda: (a == b, b == a, a == a), [a, b])
    elif which == 1:
        h.call("repr/hash/len", lambda: (repr(a), str(a), hash(a), len(a), a.n_qubits, a.is_ising, a.is_constant), [a])
    elif which == 2:
        h.call("operator.qubits", lambda: a.qubits, [a], scribble=_fill)
    elif which == 3:
        s = h.pick("sum")
        h.call("constant_term, iteration", lambda: (s.constant_term, [t for t in s], s[0] if len(s) else None), [s])
    elif which == 4:
        t = h.pick("term")
        h.call("term reports", lambda: (t.operations, list(t), t[0], t[2], t.terms), [t], scribble=lambda r: _fill(r[1]))
    else:
        h.call("operator.circuit(s)", lambda: a.circuit if isinstance(a, O.PauliTerm) else a.circuits, [a])


@op
def pauli_circuit(h):
    """The circuit of a term joins the pool, where other calls use it."""
    t = h.pick("term", lambda t: len(t) > 0)
    h.call("term.circuit", lambda: t.circuit, [t], keep="circuit")


@op
def pauli_copy(h):
    t = h.pick("term")
    c = h.rng.choice([None, 0.0, 2, 1j])
    h.call("term.copy", lambda: t.copy(c), [t], keep="term")
    d = t.copy()
    before = snap(t)
    d.coefficient = 123.0
    h.ctx.check(same(before, snap(t)), "editing the copy of a term changed the term", term=t)


@op
def pauli_construct(h):
    rng = h.rng
    terms = h.own([h.pick("term") for _ in range(rng.randint(0, 3))], "terms passed to PauliSum")
    h.call("PauliSum(list)", lambda: O.PauliSum(terms), [terms, *terms], keep="sum")
    d = h.own({q: rng.choice("XYZI") for q in rng.sample(range(3), 2)}, "dict passed to PauliTerm")
    c = _num(rng)
    h.call("PauliTerm(dict)", lambda: O.PauliTerm(d, c), [d], keep="term")
    t = O.PauliTerm(d, 1.0)
    before = snap(t)
    copy = dict(d)
    d2 = dict(d)
    t2 = O.PauliTerm(d2, 1.0)
    d2[5] = "X"
    h.ctx.check(same(snap(O.PauliTerm(copy, 1.0)), snap(t2)) and same(before, snap(t)), "a term follows later edits of the dict it was built from", term=t2)


@op
def pauli_serialise(h):
    rng = h.rng
    a = _pauli(h)
    which = rng.randrange(4)
    if which == 0:
        d = h.call("convert_op_to_dict", lambda: O.convert_op_to_dict(a), [a], scribble=_fill)
        if isinstance(d, dict) and "terms" in d:
            h.own(d, "serialised operator")
            h.call("convert_dict_to_op", lambda: O.convert_dict_to_op(d), [d], keep="sum")
    elif which == 1:
        p = h.path()

        def run():
            O.save_operator(a, p)
            return open(p).read(), O.load_operator(p)

        h.call("save_operator", run, [a])
    elif which == 2:
        p = h.path()
        ops = h.own([a, _pauli(h)], "list of operators")

        def run():
            O.save_operator_set(ops, p)
            return open(p).read(), O.load_operator_set(p)

        h.call("save_operator_set", run, [ops, *ops])
    else:
        h.call("get_pauli_strings", lambda: O.get_pauli_strings(a), [a], scribble=_fill)


def _fill_sparse(m):
    if m.data.size:
        m.data[...] = 7


@op
def pauli_convert(h):
    rng = h.rng
    a = _pauli(h, lambda a: a.n_qubits <= h.n)
    which = rng.randrange(8)
    if which == 0:
        n = rng.choice([None, h.n])
        h.call("get_sparse_operator", lambda: O.get_sparse_operator(a, n), [a], scribble=_fill_sparse)
    elif which == 1:
        h.call("hermitian_conjugated", lambda: O.hermitian_conjugated(a), [a], keep="term" if isinstance(a, O.PauliTerm) else "sum")
    elif which == 2:
        h.call("is_hermitian", lambda: O.is_hermitian(a), [a])
    elif which == 3:
        n = rng.choice([None, h.n + 1])
        h.call("reverse_qubit_order", lambda: O.reverse_qubit_order(a, n), [a], keep="sum")
    elif which == 4:
        w = h.pick("wf", lambda w: not w.free_symbols and w.n_qubits >= max(1, a.n_qubits))
        rev = rng.random() < 0.5
        h.call("get_expectation_value", lambda: O.get_expectation_value(a, w, rev), [a, w])
    elif which == 5:
        m = h.own(O.get_sparse_operator(a, h.n), "sparse matrix")
        v = h.own(gen.state(h.ctx, h.n, "haar"), "state")
        h.call("expectation", lambda: O.expectation(m, v), [m, v])
        h.call("sparse reports", lambda: (O.hermitian_conjugated(m), O.is_hermitian(m)), [m])
    elif which == 6:
        m = h.ctx.np.normal(size=(4, 4)) + (1j * h.ctx.np.normal(size=(4, 4)) if rng.random() < 0.5 else 0)
        m = h.own(m, "matrix")
        h.call("hermitian_conjugated(array)", lambda: O.hermitian_conjugated(m), [m])
        h.call("is_hermitian(array)", lambda: O.is_hermitian(m), [m])
    else:
        m = h.own((h.ctx.np.normal(size=(2, 2)) + 1j * h.ctx.np.normal(size=(2, 2))).tolist(), "matrix")
        h.call("get_pauliop_from_matrix", lambda: get_pauliop_from_matrix(m), [m])
        cs = h.own([0.5, -1.25], "coefficients")
        ls = h.own([[1, 0, 3], [2, 2, 0]], "labels")
        h.call("get_pauliop_from_coeffs_and_labels", lambda: get_pauliop_from_coeffs_and_labels(cs, ls), [cs, ls])


@op
def pauli_evaluate(h):
    rng = h.rng
    a, b = _pauli(h), _pauli(h)
    k = len(a.terms) + len(b.terms)
    e = h.add("ev", M.ExpectationValues(h.ctx.np.normal(size=k)))
    if rng.random() < 0.5:
        h.call("evaluate_operator", lambda: evaluate_operator(a, e), [a, e])
    else:
        ops = h.own([a, b], "operator list")
        h.call("evaluate_operator_list", lambda: evaluate_operator_list(ops, e), [ops, a, b, e])


@op
def pauli_evolution(h):
    rng = h.rng
    real = lambda a: all(complex(t.coefficient).imag == 0 for t in a.terms) and len(a.terms) <= 3  # noqa: E731
    a = _pauli(h, real)
    t = rng.choice([0.3, -1.5, SYMS[0]])
    which = rng.randrange(3)
    k = rng.randint(1, 2)
    if which == 0:
        h.call("time_evolution", lambda: time_evolution(a, t, n_steps=k), [a], keep="circuit")
    elif which == 1:
        h.call("time_evolution_derivatives", lambda: time_evolution_derivatives(a, 0.7, n_steps=k), [a], scribble=lambda r: [_fill(x) for x in r])
    else:
        term = h.pick("term", real)
        h.call("time_evolution_for_term", lambda: time_evolution_for_term(term, t), [term], keep="circuit")


# -- measurements ----------------------------------------------------------------


@op
def meas_reports(h):
    m = h.pick("meas")
    which = h.rng.randrange(3)
    if which == 0:
        h.call("get_counts", lambda: m.get_counts(), [m], scribble=_fill)
    elif which == 1:
        h.call("get_distribution", lambda: m.get_distribution(), [m], keep="dist", scribble=lambda d: _fill(d.distribution_dict))
    else:
        p = h.path()

        def run():
            m.save(p)
            return open(p).read(), M.Measurements.load_from_file(p)

        h.call("measurements.save", run, [m])


def _width(m):
    return len(m.bitstrings[0]) if m.bitstrings else 0


@op
def meas_expectation(h):
    rng = h.rng
    m = h.pick("meas", lambda m: m.bitstrings)
    w = _width(m)
    o = h.pick(rng.choice(["sum", "term"]), lambda o: o.is_ising and o.n_qubits <= w) if rng.random() < 0.6 else h.add("sum", gen.ising_sum(rng, w, rng.randint(1, 3), real=rng.random() < 0.7))
    which = rng.randrange(3)
    if which == 0:
        b = rng.random() < 0.4 and len(m.bitstrings) > 1
        h.call("get_expectation_values", lambda: m.get_expectation_values(o, b), [m, o], keep="ev", scribble=lambda e: (_fill(e.values), [_fill(x) for x in e.correlations]))
    elif which == 1:
        bits = m.bitstrings if rng.random() < 0.5 else h.own(list(m.bitstrings), "bitstrings")
        h.call("get_parities_from_measurements", lambda: M.get_parities_from_measurements(bits, o), [m, bits, o], keep="par", scribble=lambda p: (_fill(p.values), [_fill(x) for x in p.correlations]))
    else:
        counts = h.own(m.get_counts(), "frequencies")
        qs = h.own(rng.choice([list, set, tuple])(rng.sample(range(w), rng.randint(0, w))), "marked qubits")
        h.call("get_expectation_value_from_frequencies", lambda: M.get_expectation_value_from_frequencies(qs, counts), [counts, qs])


@op
def meas_parity(h):
    rng = h.rng
    n = h.width(3)
    qs = h.own(rng.choice([list, set, tuple])(rng.sample(range(n), rng.randint(0, n))), "marked qubits")
    if rng.random() < 0.5:
        a = h.ctx.np.integers(0, 2, size=(rng.randint(20, 80) if h.big else rng.randint(1, 5), n))
        a.flags.writeable = rng.random() < 0.6
        h.own(a, "bitstring vector")
        h.call("check_parity_of_vector", lambda: M.check_parity_of_vector(a, qs), [a, qs], scribble=_fill)
    else:
        b = h.own(list(_bits(rng, n)), "bitstring")
        h.call("check_parity", lambda: M.check_parity(b, qs), [b, qs])
        h.call("convert_bitstring_to_int", lambda: M.convert_bitstring_to_int(b), [b])


@op
def meas_construct(h):
    rng = h.rng
    if rng.random() < 0.5:
        counts = h.own({"".join(map(str, _bits(rng, 3))): rng.randint(0, 4) for _ in range(3)}, "counts")
        h.call("from_counts", lambda: M.Measurements.from_counts(counts), [counts], keep="meas", scribble=lambda m: _fill(m.bitstrings))
    else:
        d = h.pick("dist", lambda d: abs(sum(d.distribution_dict.values()) - 1) < 1e-9)
        n = rng.choice([1, 2, 5, 7, 10, 33, 250])
        h.call("get_measurements_representing_distribution", lambda: M.Measurements.get_measurements_representing_distribution(d, n), [d], keep="meas", scribble=lambda m: _fill(m.bitstrings))


@op
def values_reports(h):
    rng = h.rng
    which = rng.randrange(7)
    if which == 0:
        p = h.pick("par")
        h.call("get_expectation_values_from_parities", lambda: M.get_expectation_values_from_parities(p), [p], keep="ev", scribble=lambda e: _fill(e.values))
    elif which == 1:
        es = h.own([h.pick("ev") for _ in range(rng.randint(0, 4))], "list of expectation values")
        h.call("concatenate_expectation_values", lambda: M.concatenate_expectation_values(es), [es, *es], keep="ev")
    elif which == 2:
        e = h.pick("ev")
        d = h.call("ExpectationValues.to_dict", lambda: e.to_dict(), [e], scribble=_fill)
        if isinstance(d, dict) and "frames" in d:
            h.own(d, "serialised expectation values")
            h.call("ExpectationValues.from_dict", lambda: M.ExpectationValues.from_dict(d), [d], keep="ev")
    elif which == 3:
        p = h.pick("par")
        d = h.call("Parities.to_dict", lambda: p.to_dict(), [p], scribble=_fill)
        if isinstance(d, dict) and "values" in d:
            h.own(d, "serialised parities")
            h.call("Parities.from_dict", lambda: M.Parities.from_dict(d), [d], keep="par")
    elif which == 4:
        p, f = h.pick("par"), h.path()

        def run():
            M.save_parities(p, f)
            return open(f).read(), M.load_parities(f)

        h.call("save_parities", run, [p])
    elif which == 5:
        e, f = h.pick("ev"), h.path()

        def run():
            M.save_expectation_values(e, f)
            return open(f).read(), M.load_expectation_values(f)

        h.call("save_expectation_values", run, [e])
    else:
        a = h.own(h.ctx.np.normal(size=(2, 3)) + (1j if rng.random() < 0.5 else 0), "array")
        d = h.call("convert_array_to_dict", lambda: U.convert_array_to_dict(a), [a], scribble=_fill)
        if isinstance(d, dict) and "real" in d:
            h.own(d, "serialised array")
            h.call("convert_dict_to_array", lambda: U.convert_dict_to_array(d), [d], scribble=_fill)


# -- distributions ---------------------------------------------------------------


@op
def dist_construct(h):
    d = _dist_dict(h)
    norm = h.rng.random() < 0.7
    h.call("MeasurementOutcomeDistribution(dict)", lambda: D.MeasurementOutcomeDistribution(d, norm), [d], keep="dist", scribble=lambda x: _fill(x.distribution_dict))
    h.call("dict predicates", lambda: (D.is_normalized(d), D.is_measurement_outcome_distribution(d)), [d])


@op
def dist_sub(h):
    rng = h.rng
    d = h.pick("dist")
    n = d.get_number_of_subsystems()
    qs = rng.sample(range(n), rng.randint(1, n))
    qs = h.own(qs if rng.random() < 0.7 else tuple(qs), "active qubits")
    h.call("subdistribution", lambda: d.subdistribution(qs), [d, qs], keep="dist", scribble=lambda x: _fill(x.distribution_dict))


@op
def dist_reports(h):
    rng = h.rng
    d = h.pick("dist")
    which = rng.randrange(6)
    if which == 0:
        h.call("repr(distribution)", lambda: (repr(d), d.get_number_of_subsystems(), D.is_normalized(d.distribution_dict)), [d])
    elif which == 1:
        p = h.path()

        def run():
            D.save_measurement_outcome_distribution(d, p)
            return open(p).read(), D.load_measurement_outcome_distribution(p)

        h.call("save_measurement_outcome_distribution", run, [d])
    elif which == 2:
        p = h.path()
        ds = h.own([d, h.pick("dist")], "list of distributions")

        def run():
            D.save_measurement_outcome_distributions(ds, p)
            return open(p).read(), D.load_measurement_outcome_distributions(p)

        h.call("save_measurement_outcome_distributions", run, [ds, *ds])
    elif which == 3:
        x = h.own(dict(d.distribution_dict), "dict")
        h.call("preprocess_distibution_dict", lambda: D.preprocess_distibution_dict(x), [x], scribble=_fill)
        h.call("change_tuple_dict_keys_to_comma_separated_integers", lambda: D.change_tuple_dict_keys_to_comma_separated_integers(x), [x], scribble=_fill)
    elif which == 4:
        a = h.ctx.np.random(2 ** h.width(1, 2, 3))
        a = a / a.sum() if rng.random() < 0.7 else a
        a.flags.writeable = rng.random() < 0.6
        h.own(a, "probabilities")
        h.call("create_bitstring_distribution_from_probability_distribution", lambda: D.create_bitstring_distribution_from_probability_distribution(a), [a], keep="dist")
    else:
        d = h.pick("dist", lambda d: D.is_normalized(d.distribution_dict))
        x = h.own(dict(d.distribution_dict), "probabilities")
        h.call("sample_from_probability_distribution", lambda: U.sample_from_probability_distribution(x, 6), [x], scribble=_fill)


@op
def dist_distance(h):
    rng = h.rng
    norm = rng.random() < 0.75
    a = h.pick("dist", lambda d: D.is_normalized(d.distribution_dict) == norm)
    n = a.get_number_of_subsystems()
    b = h.pick("dist", lambda d: D.is_normalized(d.distribution_dict) == norm and d.get_number_of_subsystems() == n) if rng.random() < 0.8 else a
    f = rng.choice([D.compute_mmd, D.compute_clipped_negative_log_likelihood, D.compute_jensen_shannon_divergence])
    sigma = rng.choice([0.7, [0.5, 2.0], (1.0, 3.0), np.array([0.25, 1.5])])
    p = h.own(rng.choice([{}, {"epsilon": 1e-6, "sigma": sigma}, collections.OrderedDict(epsilon=1e-3, sigma=sigma)]), "distance parameters")
    if rng.random() < 0.5:
        h.call(f.__name__, lambda: f(a, b, p), [a, b, p])
    else:
        h.call(f"evaluate_distribution_distance({f.__name__})", lambda: D.evaluate_distribution_distance(a, b, f, distance_measure_parameters=p), [a, b, p])


@op
def kernels(h):
    rng = h.rng
    x = h.own(h.ctx.np.integers(0, 8, size=40 if h.big else 4), "basis")
    s = h.own([0.5, 2.0], "sigmas")
    if rng.random() < 0.5:
        h.call("compute_multi_rbf_kernel", lambda: D.compute_multi_rbf_kernel(x, x, s), [x, s], scribble=_fill)
    else:
        h.call("compute_rbf_kernel", lambda: D.compute_rbf_kernel(x, x, 0.7), [x], scribble=_fill)


# -- wavefunctions ---------------------------------------------------------------


@op
def wf_probabilities(h):
    w = h.pick("wf", lambda w: not w.free_symbols)
    which = h.rng.randrange(5)
    if which <= 1:
        h.call("get_probabilities", lambda: w.get_probabilities(), [w], scribble=_fill)
    elif which <= 3:
        h.call("get_outcome_probs", lambda: w.get_outcome_probs(), [w], scribble=_fill)
    else:
        h.call("create distribution from a wavefunction", lambda: D.create_bitstring_distribution_from_probability_distribution(w.get_probabilities()), [w], keep="dist")


@op
def wf_reports(h):
    w, v = h.pick("wf"), h.pick("wf")
    which = h.rng.randrange(4)
    if which == 0:
        h.call("wavefunction == wavefunction", lambda: (w == v, v == w, w == w, w == 1), [w, v])
    elif which == 1:
        h.call("str, len, iteration", lambda: (str(w), len(w), list(w), w[0], w.n_qubits, set(w.free_symbols)), [w])
    elif which == 2:
        h.call("amplitudes", lambda: np.array(w.amplitudes), [w])
    else:
        w = h.pick("wf", lambda w: not w.free_symbols)
        p = h.path()

        def run():
            save_wavefunction(w, p)
            return open(p).read()

        h.call("save_wavefunction", run, [w])


@op
def wf_derive(h):
    rng = h.rng
    which = rng.randrange(4)
    if which == 0:
        w = h.pick("wf", lambda w: bool(w.free_symbols)) if rng.random() < 0.8 else h.pick("wf")
        m = h.pick("smap")
        if rng.random() < 0.5:
            m = h.add("smap", {s: v for s, v in zip(SYMS, (0.6, 0.8))} if len(w) == 2 else {SYMS[0]: 0.5, SYMS[1]: 0.5})
        h.call("wavefunction.bind", lambda: w.bind(m), [w, m], keep="wf")
    elif which == 1:
        w = h.pick("wf", lambda w: not w.free_symbols)
        h.call("flip_wavefunction", lambda: flip_wavefunction(w), [w], keep="wf", scribble=lambda x: _fill(x.amplitudes))
    elif which == 2:
        a = _array(h, h.width(1, 2, 3))
        a = a if rng.random() < 0.6 else h.own(a.tolist(), "amplitude list")
        h.call("flip_amplitudes", lambda: flip_amplitudes(a), [a], scribble=_fill)
    else:
        w = h.pick("wf", lambda w: not w.free_symbols)
        n, seed = rng.choice([1, 3, 20]), rng.randrange(99)
        h.call("sample_from_wavefunction", lambda: sample_from_wavefunction(w, n, seed), [w], scribble=_fill)


# -- other helpers taking containers ---------------------------------------------


@op
def helpers(h):
    rng = h.rng
    which = rng.randrange(9)
    if which >= 6:
        # results of one circuit run several times, the sizes of the parts may differ a lot
        n = rng.choice([2, 3, 6, 9])
        mult = h.own([rng.choice([1, 2, 2, 3]) for _ in range(rng.randint(1, 4))], "multiplicities")
        sizes = [rng.choice([1, 2, 5, 30, 200, 600]) for _ in range(sum(mult))]
        shots = [["".join(map(str, _bits(rng, n))) for _ in range(k)] for k in sizes]
        if which == 6:
            make = rng.choice([dict, collections.Counter])
            counts = h.own([h.own(make(collections.Counter(s)), "counts") for s in shots], "list of counts")
            h.call("combine_measurement_counts", lambda: C.combine_measurement_counts(counts, mult), [counts, mult, *counts])
        elif which == 7:
            lists = h.own([h.own(s, "bitstrings") for s in shots], "lists of bitstrings")
            h.call("combine_bitstrings", lambda: C.combine_bitstrings(lists, mult), [lists, mult, *lists])
        else:
            circs = h.own([h.pick("circuit") for _ in sizes], "list of circuits")
            ns = h.own(list(sizes), "numbers of samples")
            h.call("expand_sample_sizes", lambda: C.expand_sample_sizes(circs, ns, 50), [circs, ns, *circs])
            h.call("split_into_batches", lambda: list(C.split_into_batches(circs, ns, 3)), [circs, ns, *circs])
        return
    if which == 0:
        v = h.own(rng.choice([[0.5, 1, 2.25], [3, 1], (1.0, 1.0, 1.0), np.array([0.2, 0.8])]), "values")
        h.call("scale_and_discretize", lambda: U.scale_and_discretize(v, 17), [v], scribble=_fill)
    elif which == 1:
        s = h.own(list(SYMS), "symbols")
        p = h.own(h.ctx.np.normal(size=3), "parameters")
        h.call("create_symbols_map", lambda: U.create_symbols_map(s, p), [s, p], scribble=_fill)
    elif which == 2:
        b = h.own([_bits(rng, 3) for _ in range(4)], "tuples")
        h.call("convert_tuples_to_bitstrings", lambda: U.convert_tuples_to_bitstrings(b), [b], scribble=_fill)
        s = h.own(["".join(map(str, t)) for t in b], "bitstrings")
        h.call("convert_bitstrings_to_tuples", lambda: U.convert_bitstrings_to_tuples(s), [s], scribble=_fill)
    elif which == 3:
        m = h.own(gen.rand_unitary(h.ctx.np, 2), "matrix")
        k = h.own(m * 1j, "matrix")
        h.call("unitary predicates", lambda: (U.is_unitary(m, 1e-9), U.compare_unitary(m, k, 1e-9), U.is_identity(m)), [m, k])
    elif which == 4:
        x = layouts.CircuitLayers(h.own([[(0, 1)], [(1, 2), (3, 4)]], "layers"))
        h.own(x, "CircuitLayers")
        p = h.path()

        def run():
            layouts.save_circuit_layers(x, p)
            return open(p).read(), layouts.load_circuit_layers(p)

        h.call("save_circuit_layers", run, [x])
        d = h.own({"connectivity": [[0, 1], [1, 2]]}, "dict")
        h.call("CircuitConnectivity.from_dict", lambda: layouts.CircuitConnectivity.from_dict(d), [d])
    else:
        d = h.own({"a": [1, 2], "b": {"c": 1}}, "dict")
        p = h.path()

        def run():
            U.save_generic_dict(d, p)
            return open(p).read()

        h.call("save_generic_dict", run, [d])


@op
def records_long(h):
    """Operators, measurement sets, distributions and states far longer than what the other calls could afford."""
    rng = h.rng
    which = rng.randrange(5)
    k = rng.choice([65, 100, 129, 257, 300, 513, 1025])
    if which == 0:
        k = min(k, 300)
        s = h.own(O.PauliSum([gen.term(rng, 6) for _ in range(k)]), f"sum of {k} terms")
        t = h.own(gen.term(rng, 6), "term")
        x = _num(rng)
        name, f = rng.choice([
            ("+ term", lambda: s + t), ("term +", lambda: t + s), ("- term", lambda: s - t), ("* term", lambda: s * t), ("* number", lambda: s * x),
            ("simplify", lambda: s.simplify()), ("hermitian_conjugated", lambda: O.hermitian_conjugated(s)), ("reverse_qubit_order", lambda: O.reverse_qubit_order(s, 6)),
            ("convert_op_to_dict", lambda: O.convert_op_to_dict(s)), ("qubits", lambda: (s.qubits, s.n_qubits, len(s), s.is_ising)), ("+ sum", lambda: s + O.PauliSum([t])),
            ("/ number", lambda: s / (x or 2)), ("PauliSum(terms)", lambda: O.PauliSum(s.terms)), ("sparse", lambda: O.get_sparse_operator(s, 6)),
        ])
        r = h.call(f"long sum: {name}", f, [s, t])
        if isinstance(r, O.PauliSum):
            h.call("result of a long sum + term", lambda: r + t, [r, s, t])
    elif which == 1:
        n = rng.randint(1, 6)
        m = h.own(M.Measurements([_bits(rng, n) for _ in range(k)]), f"{k} measurements")
        o = h.own(gen.ising_sum(rng, n, 3, real=True), "ising operator")
        c = h.own(m.get_counts(), "counts")
        name, f = rng.choice([
            ("get_counts", lambda: m.get_counts()), ("get_distribution", lambda: m.get_distribution()), ("get_expectation_values", lambda: m.get_expectation_values(o)),
            ("parities", lambda: M.get_parities_from_measurements(m.bitstrings, o)), ("from_counts", lambda: M.Measurements.from_counts(c)),
        ])
        h.call(f"many measurements: {name}", f, [m, o, c])
    elif which == 2:
        n = 10
        keys = {_bits(rng, n): rng.uniform(0.01, 1) for _ in range(min(k, 600))}
        t = sum(keys.values())
        d = h.own(D.MeasurementOutcomeDistribution(h.own({b: v / t for b, v in keys.items()}, "probabilities")), f"distribution over {len(keys)} outcomes")
        qs = h.own(rng.sample(range(n), rng.randint(1, n)), "marked qubits")
        h.call("wide distribution: subdistribution", lambda: d.subdistribution(qs), [d, qs])
        h.call("wide distribution: reports", lambda: repr(d), [d])
        e = h.own(D.MeasurementOutcomeDistribution({_bits(rng, n): 0.5, (0,) * n: 0.5} if rng.random() < 0.5 else {(1,) * n: 1.0}), "distribution")
        h.call("wide distribution: clipped log-likelihood", lambda: D.compute_clipped_negative_log_likelihood(d, e, {"epsilon": 1e-6}), [d, e])
    elif which == 3:
        n = rng.choice([7, 8, 9])
        a = h.ctx.np.normal(size=2**n) + 0j
        a = h.own(a / np.linalg.norm(a), "amplitudes")
        w = h.own(Wavefunction(a.copy()), f"wavefunction on {n} qubits")
        name, f = rng.choice([
            ("probabilities", lambda: w.get_probabilities()), ("outcome probs", lambda: w.get_outcome_probs()), ("samples", lambda: sample_from_wavefunction(w, k, seed=3)),
            ("expectation", lambda: O.get_expectation_value(O.PauliTerm({n - 1: "Z", 0: "X"}, 2.0), w)), ("equality", lambda: (w == w, len(w), w.n_qubits)),
        ])
        h.call(f"wide state: {name}", f, [w], scribble=_fill if name == "probabilities" else None)
    else:
        v = h.ctx.np.normal(size=min(k, 300))
        e = h.own(M.ExpectationValues(h.own(v, "values")), "many values")
        h.call("many values: to_dict", lambda: (e.to_dict(), M.ExpectationValues.from_dict(e.to_dict())), [e])


# -- workloads -------------------------------------------------------------------

FAMILIES = {
    "circuits": [k for k in OPS if k.startswith(("circuit", "run", "gate", "operation", "multiphase"))],
    "operators": [k for k in OPS if k.startswith("pauli")],
    "records": [k for k in OPS if k.startswith(("meas", "values", "dist", "wf", "kernels", "helpers", "records"))],
}
FAMILIES["everything"] = list(OPS)


def _play(ctx, names, length, focus=None, n=N_MAX):
    h = History(ctx, n)
    for i in range(length):
        name = focus if focus and ctx.rng.random() < 0.4 else ctx.rng.choice(names)
        h.current = name
        try:
            OPS[name](h)
        except core.Skip:
            continue
    ctx.sample(f"{h.calls} calls over {sum(map(len, h.pool.values()))} shared objects")
    h.finish()
    ctx.ev("histories")


def focused(ctx):
    """Histories that come back to one operation again and again."""
    names = list(OPS)
    focus = names[ctx.index % len(names)]
    family = next(k for k in ("circuits", "operators", "records") if focus in FAMILIES[k])
    _play(ctx, FAMILIES[family], ctx.rng.randint(10, 18), focus)


def mixed(ctx):
    _play(ctx, FAMILIES[ctx.rng.choice(["circuits", "operators", "records", "everything", "everything"])], ctx.rng.randint(14, 40))


def large(ctx):
    """Histories over long objects on wider registers: operations may switch to another method there."""
    n = ctx.rng.choice([4, 5, 5, 6])
    names = list(OPS)
    focus = names[ctx.index % len(names)]
    if ctx.index % 3 == 2:
        _play(ctx, FAMILIES[ctx.rng.choice(["circuits", "operators", "records", "everything"])], ctx.rng.randint(10, 20), n=n)
    else:
        family = next(k for k in ("circuits", "operators", "records") if focus in FAMILIES[k])
        _play(ctx, FAMILIES[family], ctx.rng.randint(8, 16), focus, n=n)
    ctx.ev("large_histories")


REQUIRED_EVENTS = ("large_histories", "histories", "calls", "snapshots_compared", "repeated_calls", "replayed_calls", "scribbled_reports", "constructor_copies", *[f"op:{k}" for k in OPS])
WORKLOADS = [
    dict(name="focused", case=focused, quick=12 * len(OPS), thorough=300 * len(OPS)),
    dict(name="mixed", case=mixed, quick=500, thorough=9000),
    dict(name="large", case=large, quick=150, thorough=2500, hang="inconclusive"),
]
