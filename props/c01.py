"""C01 - a circuit acts as the ordered product of its gates on the named qubits."""
import math

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.runners import SymbolicSimulator

from vmon import gen, lits, ref
from vmon.ref import to_np

PROPERTY = "C01"
RULE = (
    "random circuits of built-in, custom (1-4 qubits) and wrapped gates on every shape "
    "of index tuple (adjacent, reversed, shuffled, spanning, scattered), idle qubits, "
    "widths 1..10; the whole-circuit matrix, per-operation application, the bundled "
    "simulator and base-class simulators with random native predicates (phase-only "
    "operations interleaved), and concatenations are compared with an independent "
    "tensordot embedding of each gate's own matrix. Non-trivial: at least one "
    "operation on a register of at least two qubits; identified by (width, ops)."
)
ASSUMPTIONS = [
    "numeric comparison to 1e-8 in double precision",
    "gate.matrix is taken as given here (C02 and C07 judge it)",
    "symbolic circuits are compared at sampled symbol values",
]
TOL = 1e-8


def _check_unitary(ctx, circ, n, steps, label="to_unitary"):
    u = to_np(ctx.hold(circ.to_unitary(), label))
    want = ref.circuit_matrix(steps, n)
    ctx.close(u, want, f"{label} is not the ordered product of embedded gates", TOL, circuit=circ)
    ctx.ev("circuit_matrices")
    return want


def _describe(circ):
    return (circ.n_qubits, tuple(str(op) for op in circ.operations))


def case_unitary(ctx):
    circ = gen.circuit(ctx)
    n = circ.n_qubits
    declared = max([max(op.qubit_indices) + 1 for op in circ.operations], default=0)
    ctx.check(n >= declared, "register narrower than its operations", circuit=circ)
    steps = gen.steps(circ)
    ctx.note(circ)
    want = _check_unitary(ctx, circ, n, steps)
    if circ.operations and n >= 2:
        ctx.nontrivial(_describe(circ))
        ctx.sample(circ)
    if n == 0:
        return
    # one at a time on an arbitrary state, keeping the input intact
    psi = gen.state(ctx, n)
    v, w = psi.copy(), psi.astype(complex)
    for op, (u, q) in zip(circ.operations, steps):
        before = np.array(v, dtype=complex)
        v2 = op.apply(v)
        w = ref.apply_matrix(w, u, q, n)
        ctx.close(to_np(v2).reshape(-1), w, "operation.apply", TOL, op=op, circuit=circ)
        ctx.close(np.array(v, dtype=complex), before, "apply changed its input state", 0.0, op=op)
        ctx.ev("applications")
        v = v2
    ctx.close(w, want @ psi, "reference self-check", TOL)
    # the bundled simulator
    sim = SymbolicSimulator()
    got = sim.get_wavefunction(circ, psi).amplitudes
    ctx.close(to_np(got).reshape(-1), want @ psi, "SymbolicSimulator(initial_state)", TOL, circuit=circ)
    got = sim.get_wavefunction(circ).amplitudes
    ctx.close(to_np(got).reshape(-1), want[:, 0], "SymbolicSimulator from |0..0>", TOL, circuit=circ)
    ctx.ev("simulations", 2)
    # a second evaluation gives the same
    if ctx.rng.random() < 0.3:
        _check_unitary(ctx, circ, n, steps, "second to_unitary")


class Sim(BaseWavefunctionSimulator):
    """A base-class simulator with a chosen native predicate and own engine."""

    def __init__(self, native, engine):
        super().__init__()
        self.native = native
        self.engine = engine
        self.segments = []

    def is_natively_supported(self, operation):
        return self.native(operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.segments.append((circuit, len(initial_state)))
        state = np.asarray(initial_state, dtype=complex)
        n = int(np.log2(len(state)))
        for op in circuit.operations:
            if isinstance(op, C.MultiPhaseOperation):
                state = np.exp(1j * np.array(op.params, dtype=float)) * state
            elif self.engine == "ref":
                state = ref.apply_matrix(state, to_np(op.gate.matrix), op.qubit_indices, n)
            elif self.engine == "inplace":
                # third-party engines may update their buffer
                state = np.array(state)
                state[:] = ref.apply_matrix(state, to_np(op.gate.matrix), op.qubit_indices, n)
            else:
                state = ref.apply_matrix(state, to_np(op.gate.matrix), op.qubit_indices, n)
        return state


def case_simulator(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 4])
    ops = gen.circuit_ops(ctx, n, rng.choice([0, 1, 2, 4, 7]), depth=1)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        phases = [rng.choice([gen.angle(rng), rng.uniform(-30, 30), 0.0]) for _ in range(2**n)]
        r = rng.random()
        if r < 0.3:
            phases = [sympy.Float(p) for p in phases]
        elif r < 0.4:
            phases = [sympy.pi * rng.randint(-5, 5) / 4 for p in phases]
        elif r < 0.5:
            phases = [rng.randint(-4, 4) for p in phases]
        ops.insert(rng.randint(0, len(ops)), C.MultiPhaseOperation(tuple(phases)))
    circ = C.Circuit(ops, n_qubits=n)
    names = sorted({op.gate.name for op in ops if isinstance(op, C.GateOperation)})
    keep = {nm for nm in names if rng.random() < 0.5}
    style = rng.randrange(7)
    parity = rng.randrange(2)
    preds = [
        lambda op: isinstance(op, C.GateOperation),
        lambda op: True,
        lambda op: False,
        lambda op: isinstance(op, C.GateOperation) and op.gate.name in keep,
        lambda op: isinstance(op, C.GateOperation) and len(op.qubit_indices) == 1 + parity,
        lambda op: isinstance(op, C.GateOperation) and min(op.qubit_indices) % 2 == parity,
        lambda op: isinstance(op, C.MultiPhaseOperation),
    ]
    if rng.random() < 0.2:
        # predicates are only asked for truth, not for booleans
        base = preds[style]
        preds[style] = lambda op: 1 if base(op) else 0
    steps, want = [], np.eye(2**n, dtype=complex)
    for op in ops:
        if isinstance(op, C.MultiPhaseOperation):
            d = np.exp(1j * np.array([float(p) for p in op.params]))
            want = d[:, None] * want
            psi = gen.state(ctx, n)
            keep_psi = np.array(psi)
            ctx.close(ctx.hold(op.apply(psi), "MultiPhaseOperation.apply"), d * psi, "MultiPhaseOperation.apply", TOL, op=op)
            ctx.close(psi, keep_psi, "MultiPhaseOperation.apply changed its input", 0.0)
            ctx.ev("phase_applications")
        else:
            want = ref.apply_matrix(want, to_np(op.gate.matrix), op.qubit_indices, n)
    sims = [
        Sim(preds[style], rng.choice(["ref", "inplace"])),
        Sim(preds[rng.randrange(7)], "ref"),
        SymbolicSimulator(seed=rng.choice([None, 3])),
    ]
    psi = gen.state(ctx, n)
    for sim in sims:
        keep_psi = np.array(psi)
        for _ in range(rng.choice([1, 1, 2])):
            got = ctx.hold(sim.get_wavefunction(circ, psi), "get_wavefunction")
            ctx.close(
                to_np(got.amplitudes).reshape(-1), want @ psi,
                f"{type(sim).__name__} final state", TOL, circuit=circ, style=style,
            )
            ctx.close(psi, keep_psi, "initial state changed by the simulator", 0.0, circuit=circ)
            ctx.ev("simulations")
        got = ctx.hold(sim.get_wavefunction(circ), "get_wavefunction")
        ctx.close(to_np(got.amplitudes).reshape(-1), want[:, 0], "state from |0..0>", TOL, circuit=circ, style=style)
        ctx.ev("simulations")
        ctx.check(
            all(c.n_qubits == n and length == 2**n for c, length in getattr(sim, "segments", [])),
            "a native segment has a different register width", circuit=circ,
        )
    ctx.ev("native_segments", len(sims[0].segments) + len(sims[1].segments))
    if ops:
        ctx.nontrivial(style, _describe(circ))
        ctx.sample("native style", style, circ)


def case_concat(ctx):
    rng = ctx.rng
    parts = [gen.circuit(ctx, n=rng.choice([1, 2, 3, 4]), length=rng.choice([0, 1, 2, 3]), depth=1) for _ in range(rng.randint(2, 4))]
    snapshot = [(c.n_qubits, list(c.operations)) for c in parts]
    mats = [(c.n_qubits, gen.steps(c)) for c in parts]
    total = parts[0]
    width, steps = mats[0]
    steps = list(steps)
    for c, (w, s) in zip(parts[1:], mats[1:]):
        total = total + c
        width = max(width, w)
        steps += s
        ctx.check(total.n_qubits == width, "width of a concatenation is not the larger width",
                  got=total.n_qubits, want=width, parts=parts)
        ctx.ev("concatenations")
        if rng.random() < 0.4:
            g = gen.wrapped_gate(ctx, max_qubits=2, depth=1)
            op = g(*gen.qubit_tuple(rng, g.num_qubits, max(g.num_qubits, rng.choice([width, width + 1, width + 2, 2]))))
            total = total + op
            steps.append((to_np(g.matrix), op.qubit_indices))
            width = max(width, max(op.qubit_indices) + 1)
            ctx.check(total.n_qubits == width, "width after appending an operation",
                      got=total.n_qubits, want=width, op=op)
        if width > 6:
            break
    ctx.check(len(total.operations) == len(steps), "operations lost or added by concatenation")
    want = _check_unitary(ctx, total, width, steps, "matrix of a concatenation")
    for (w, ops), c in zip(snapshot, parts):
        ctx.check(c.n_qubits == w and list(c.operations) == ops, "concatenation changed an operand", circuit=c)
    if width and steps:
        psi = gen.state(ctx, width)
        got = SymbolicSimulator().get_wavefunction(total, psi).amplitudes
        ctx.close(to_np(got).reshape(-1), want @ psi, "simulated concatenation", TOL, circuit=total)
        ctx.nontrivial(_describe(total))
        ctx.sample(total)


def case_wide(ctx):
    rng = ctx.rng
    sizes = [6, 7, 7, 8, 8, 9] if not ctx.thorough else [6, 7, 8, 9, 10, 10]
    extra = [i for i in lits.ints_in(6, 9)]
    n = rng.choice(sizes + extra)
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice([1, 2, 2, 3, 4])
        r = rng.random()
        if r < 0.4:
            g = gen.custom_numeric(ctx, k)()
        elif r < 0.7:
            g = gen.base_gate(ctx, 1, custom=False).controlled(rng.randint(1, 4))
        else:
            g = gen.wrapped_gate(ctx, 4, depth=1)
        ops.append(g(*gen.qubit_tuple(rng, g.num_qubits, n)))
    if rng.random() < 0.5:
        # almost the identity, or almost another special gate: tiny entries have to survive in wide registers too
        def nearly():
            return rng.choice([0, 0, 0, 1, 2, 4]) * math.pi / 2 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6.5, -2.5)

        g = gen.make_builtin(rng, rng.choice(["RX", "RY", "RZ", "PHASE", "U3", "XX", "ZZ"]), nearly)
        ops.insert(rng.randint(0, len(ops)), g(*gen.qubit_tuple(rng, g.num_qubits, n)))
    circ = C.Circuit(ops, n_qubits=n if rng.random() < 0.7 else None)
    n = circ.n_qubits
    steps = gen.steps(circ)
    want = ref.circuit_matrix(steps, n)
    psi = gen.state(ctx, n)
    keep_psi = np.array(psi)
    got = SymbolicSimulator().get_wavefunction(circ, psi).amplitudes
    ctx.close(to_np(got).reshape(-1), want @ psi, "simulated wide circuit", TOL, circuit=circ)
    # with phases on all the levels in between
    mixed, state = [], np.array(psi, dtype=complex)
    for op, (u, q) in zip(list(circ.operations), steps):
        d = np.exp(1j * (phases := ctx.np.uniform(-4, 4, 2**n)))
        mp = C.MultiPhaseOperation(tuple(map(float, phases)))
        for one, after in ((mp, d * state), (op, ref.apply_matrix(d * state, u, q, n))):
            held = np.array(state)
            for _ in range(2):
                got = one.apply(state)
                ctx.close(to_np(ctx.hold(got, "apply")).reshape(-1), after, "operation applied to a wide state", TOL, op=op, n=n)
                ctx.close(state, held, "apply changed the state it was given", 0.0, op=op, n=n)
                ctx.ev("phase_applications" if one is mp else "applications")
            mixed.append(one)
            state = after
    both = C.Circuit(mixed, n_qubits=n)
    for sim in (SymbolicSimulator(), Sim(lambda op: isinstance(op, C.GateOperation), "ref")):
        for _ in range(2):
            got = ctx.hold(sim.get_wavefunction(both, psi), "get_wavefunction")
            ctx.close(to_np(got.amplitudes).reshape(-1), state, "simulated wide circuit with phases", TOL, circuit=circ)
        ctx.close(psi, keep_psi, "initial state changed by the simulator", 0.0, circuit=circ)
        ctx.ev("simulations")
    if n <= 8 or ctx.thorough:
        _check_unitary(ctx, circ, n, steps)
    ctx.ev("simulations")
    ctx.nontrivial(_describe(circ))
    ctx.sample(n, [op.qubit_indices for op in ops])


def case_symbolic(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3])
    syms = gen.symbols(rng, 3)
    values = {s: rng.uniform(-3, 3) for s in syms}

    def param():
        return gen.expression(rng, syms, 1) if rng.random() < 0.6 else gen.typed_number(rng)

    ops = gen.circuit_ops(ctx, n, rng.choice([1, 2, 3]), param=param, depth=1, allow=("ctrl", "dag"))
    circ = C.Circuit(ops, n_qubits=n)
    want = np.eye(2**n, dtype=complex)
    for op in ops:
        u = ref.subs_np(op.gate.matrix, values)
        want = ref.apply_matrix(want, u, op.qubit_indices, n)
    got = ref.subs_np(circ.to_unitary(), values)
    ctx.close(got, want, "symbolic circuit matrix at sampled values", 1e-7, circuit=circ, values=values)
    ctx.ev("circuit_matrices")
    # symbolic state propagation
    basis = rng.randrange(2**n)
    v = np.zeros(2**n)
    v[basis] = 1
    s = v
    for op in ops:
        s = op.apply(s)
    flat = s.tolist() if hasattr(s, "tolist") else list(s)
    flat = [x[0] if isinstance(x, list) else x for x in flat]
    got = np.array([ref.eval_expr(sympy.sympify(x), values) for x in flat])
    ctx.close(got, want[:, basis], "symbolic application at sampled values", 1e-7, circuit=circ, values=values)
    ctx.ev("applications", len(ops))
    if circ.free_symbols:
        ctx.nontrivial(_describe(circ))
        ctx.sample(circ)


def case_lift(ctx):
    """Every ordered index tuple of small registers, one gate at a time."""
    import itertools

    combos = [(n, t) for n in range(1, 6) for k in range(1, min(n, 4) + 1)
              for t in itertools.permutations(range(n), k)]
    chunk = 12
    start = (ctx.index * chunk) % len(combos)
    for n, t in combos[start:start + chunk]:
        g = gen.custom_numeric(ctx, len(t), name=f"lift{len(t)}")()
        op = g(*t)
        u = to_np(g.matrix)
        got = to_np(C.Circuit([op], n_qubits=n).to_unitary())
        ctx.close(got, ref.embed(u, t, n), "embedding", TOL, tuple=t, n=n)
        psi = gen.state(ctx, n, "haar")
        ctx.close(to_np(op.apply(psi)).reshape(-1), ref.apply_matrix(psi, u, t, n), "apply", TOL, tuple=t, n=n)
        ctx.nontrivial("lift", n, t)
        ctx.ev("index_tuples")


def case_similar(ctx):
    """Circuits of gates that nearly coincide, judged through one simulator that outlives them."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 3, 4])
    pool = [gen.make_builtin(rng, rng.choice(["RX", "RY", "RZ", "PHASE", "RH", "CPHASE", "XX", "ZZ", "XY", "U3"]),
                             lambda: rng.uniform(-3, 3)) for _ in range(2)]
    if rng.random() < 0.6:
        # two definitions under one name
        k = rng.choice([1, 2])
        pool += [gen.custom_numeric(ctx, k, name="same")(), gen.custom_numeric(ctx, k, name="same")()]
    if rng.random() < 0.5:
        pool += [C.X, C.Y, C.RX(1), C.RX(1.0), C.RX(True), C.RX(sympy.Integer(1))]
    pool = [g for g in pool if g.num_qubits <= n] or [C.H]
    sims = [SymbolicSimulator(), Sim(lambda op: isinstance(op, C.GateOperation), "ref"), Sim(lambda op: len(op.qubit_indices) == 1, "inplace")]
    ops = []
    for _ in range(rng.choice([2, 3, 4])):
        ops = [op for op in ops if rng.random() < 0.7]
        for _ in range(rng.randint(1, 4)):
            g = rng.choice(pool)
            if rng.random() < 0.6:
                g = gen.variant(ctx, g)
            if rng.random() < 0.2 and g.num_qubits < n:
                g = g.controlled(1)
            op = g(*gen.qubit_tuple(rng, g.num_qubits, n))
            ops += [op] * rng.choice([1, 1, 1, 2])  # one operation object may occur twice
            if rng.random() < 0.3:
                t = list(op.qubit_indices)
                rng.shuffle(t)
                ops.insert(rng.randint(0, len(ops)), g(*t))
        if rng.random() < 0.2:
            rng.shuffle(ops)
        circ = C.Circuit(ops, n_qubits=n)
        steps = gen.steps(circ)
        want = _check_unitary(ctx, circ, n, steps)
        psi = gen.state(ctx, n)
        for sim in sims:
            got = ctx.hold(sim.get_wavefunction(circ, psi), "get_wavefunction")
            ctx.close(to_np(got.amplitudes).reshape(-1), want @ psi, f"{type(sim).__name__} used before", TOL, circuit=circ)
            ctx.ev("simulations")
        if rng.random() < 0.4:
            twice = circ + circ
            ctx.close(to_np(twice.to_unitary()), want @ want, "circuit added to itself", TOL, circuit=circ)
            acc = circ
            acc += circ
            ctx.close(to_np(acc.to_unitary()), want @ want, "circuit += itself", TOL, circuit=circ)
            ctx.check(len(circ.operations) == len(ops), "adding a circuit to itself changed it", circuit=circ)
            ctx.ev("concatenations", 2)
        ctx.nontrivial(_describe(circ))
    ctx.ev("similar_circuits")


def case_long(ctx):
    """Many operations."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5])
    pool = [g for g in (C.X, C.Y, C.Z, C.H, C.S, C.T, C.SX, C.CNOT, C.CZ, C.SWAP, C.ISWAP, C.RX(0.3), C.RY(-1.1), C.RZ(2.2),
                        C.XX(0.4), C.X.controlled(2), C.T.dagger, C.CPHASE(0.9)) if g.num_qubits <= n]
    pool += [gen.custom_numeric(ctx, rng.randint(1, min(n, 3)))()]
    length = rng.choice([20, 33, 64, 65, 100, 129, 200] + [x for x in lits.ints_in(10, 260)])
    mats = {id(g): to_np(g.matrix) for g in pool}
    ops, want = [], np.eye(2**n, dtype=complex)
    for _ in range(length):
        g = rng.choice(pool)
        op = g(*gen.qubit_tuple(rng, g.num_qubits, n))
        ops.append(op)
        want = ref.apply_matrix(want, mats[id(g)], op.qubit_indices, n)
    circ = C.Circuit(ops, n_qubits=n)
    cut = rng.randint(0, length)
    ctx.close(to_np((C.Circuit(ops[:cut], n_qubits=n) + C.Circuit(ops[cut:])).to_unitary()), want, "long concatenation", TOL, length=length, n=n)
    psi = gen.state(ctx, n)
    for sim in (SymbolicSimulator(), Sim(lambda op: op.qubit_indices[0] % 2 == 0, "ref")):
        got = sim.get_wavefunction(circ, psi)
        ctx.close(to_np(got.amplitudes).reshape(-1), want @ psi, f"{type(sim).__name__} on a long circuit", TOL, length=length, n=n)
        ctx.ev("simulations")
    if length <= 130:
        ctx.close(to_np(circ.to_unitary()), want, "matrix of a long circuit", TOL, length=length, n=n)
    ctx.ev("long_circuits")
    ctx.nontrivial(length, n, str(circ)[:3000])


WORKLOADS = [
    dict(name="similar", case=case_similar, quick=150, thorough=2500, hang="inconclusive"),
    dict(name="long", case=case_long, quick=60, thorough=900, hang="inconclusive"),
    dict(name="lift", case=case_lift, quick=30, thorough=120),
    dict(name="unitary", case=case_unitary, quick=700, thorough=9000),
    dict(name="simulator", case=case_simulator, quick=300, thorough=4000),
    dict(name="concat", case=case_concat, quick=250, thorough=3000),
    dict(name="symbolic", case=case_symbolic, quick=80, thorough=1000, hang="inconclusive"),
    dict(name="wide", case=case_wide, quick=250, thorough=1500),
]
REQUIRED_EVENTS = ("circuit_matrices", "applications", "simulations", "concatenations", "native_segments", "similar_circuits", "long_circuits")
