"""C08 - circuit-level constructions: inverse, controlled, layers, ancillas."""
import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.circuits import add_ancilla_register, apply_gate_to_qubits, create_layer_of_gates

from vmon import gen, lits, ref
from vmon.core import hold_results

hold_results(globals(), "create_layer_of_gates", "apply_gate_to_qubits", "add_ancilla_register")

PROPERTY = "C08"
RULE = (
    "random circuits (1-5 qubits plus idle ones, 0-9 gates: built-in, custom, controlled, dagger, integer and "
    "fractional power, exp, symbolic) through inverse, double inverse, append-inverse, controlled(k) for every k in "
    "0..n, nested constructions, gate layers, gate-to-collection application and ancilla registers. Oracle: own dense "
    "product of the original gates' matrices (conjugate transpose, block form with the control at k, Kronecker "
    "product), own bookkeeping of qubits and parameter rows. Identified by circuit and construction."
)
ASSUMPTIONS = [
    "exp gates are not unitary: for circuits holding them only 'conjugate transpose' is asserted",
    "with unordered collections only 'each row used once, one gate per distinct qubit' is asserted",
    "fractional powers of gates with eigenvalue -1 fall under the listed finding",
]
TOL = 1e-7


def _ctrl_at(u, k, n):
    """Reference matrix: control on qubit k of n+1, u on the others in order."""
    d = 2 ** (n + 1)
    out = np.eye(d, dtype=complex)
    rest = [i for i in range(n + 1) if i != k]
    idx = [i for i in range(d) if ref.bit(i, k, n + 1)]

    def sub(i):
        return sum(ref.bit(i, q, n + 1) << (n - 1 - p) for p, q in enumerate(rest))

    for i in idx:
        out[i, i] = 0
        for j in idx:
            out[i, j] = u[sub(i), sub(j)]
    return out


def _unitary(c, env=None):
    """The library's own matrix of the circuit, numerically."""
    u = c.to_unitary()
    return ref.subs_np(u, env) if env else ref.to_np(u)


def _product(c, env=None):
    memo, steps = {}, []
    for op in c.operations:
        g = op.gate
        if id(g) not in memo:
            memo[id(g)] = (g, ref.subs_np(g.matrix, env or {}))  # the gate is kept so that its id stays its own
        steps.append((memo[id(g)][1], op.qubit_indices))
    return ref.circuit_matrix(steps, c.n_qubits)


def _frozen(c):
    return (c.n_qubits, [(str(o.gate), o.gate, tuple(o.qubit_indices)) for o in c.operations])


def _same_frozen(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(
        x[1] is y[1] and x[0] == y[0] and x[2] == y[2] for x, y in zip(a[1], b[1]))


def _circ(ctx, n=None, exp=False, **kw):
    rng = ctx.rng
    allow = ("ctrl", "dag", "pow", "dag") + (("exp",) if exp else ())
    return gen.circuit(ctx, n=n, length=rng.choice([0, 1, 1, 2, 3, 4, 6]), allow=allow, depth=3, **kw)


def _selfadjoint_mix(ctx):
    """Circuits built of gates whose dagger takes shortcuts."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    c = C.Circuit(n_qubits=n) if rng.random() < 0.5 else C.Circuit()
    names = ["X", "Y", "Z", "H", "I", "S", "T", "SX", "CNOT", "CZ", "SWAP", "ISWAP", "RX", "RZ", "GPi", "GPi2", "U3", "MS",
             "XX", "YY", "ZZ", "XY", "CPHASE", "PHASE", "RH", "RY", "Delay"]
    if rng.random() < 0.35:
        names = ["X", "H", "Y", "CNOT", "CNOT", "CNOT", "SWAP", "CZ"]  # neighbours often nearly cancel
        n = max(n, rng.choice([1, 2]))
    for _ in range(rng.randint(1, 6)):
        name = rng.choice([x for x in names if ref.BUILTINS[x][1] <= n])
        g = gen.make_builtin(rng, name, lambda: gen.typed_number(rng))
        if rng.random() < 0.25:
            g = g.dagger
        if rng.random() < 0.2:
            g = g.power(rng.choice([2, 3, 1, 0]))
        if g.num_qubits < n and rng.random() < 0.25:
            g = g.controlled(1)
        qs = list(gen.qubit_tuple(rng, g.num_qubits, n))
        c += g(*qs)
        while rng.random() < 0.35:
            # peephole bait: the gate or its inverse again, on the same qubits or in another order
            rng.random() < 0.6 and rng.shuffle(qs)
            c += (g if rng.random() < 0.7 else g.dagger)(*qs)
    return c


def case_inverse(ctx):
    rng = ctx.rng
    has_exp = rng.random() < 0.15
    c = _selfadjoint_mix(ctx) if rng.random() < 0.4 else _circ(ctx, exp=has_exp)
    before = _frozen(c)
    ctx.note(c)
    u = _product(c)
    inv = c.inverse()
    w = dict(circuit=c, inverse=inv)
    ctx.check(type(inv) is C.Circuit and inv.n_qubits == c.n_qubits, "width of the inverse", **w)
    scale = max(1.0, float(np.max(np.abs(u)))) if u.size else 1.0
    ctx.close(_product(inv), u.conj().T, "product of the inverse's gates", TOL * scale, **w)
    ctx.close(_unitary(inv), u.conj().T, "to_unitary of the inverse", TOL * scale, **w)
    back = inv.inverse()
    ctx.check(back.n_qubits == c.n_qubits, "width of the double inverse", **w)
    ctx.close(_unitary(back), u, "inverting twice", TOL * scale, **w)
    if ref.is_unitary(u, 1e-7):
        both = c + inv
        ctx.check(both.n_qubits == c.n_qubits, "width of circuit + inverse", **w)
        ctx.close(_unitary(both), np.eye(2**c.n_qubits), "circuit followed by its inverse", TOL, **w)
        ctx.close(_unitary(inv + c), np.eye(2**c.n_qubits), "inverse followed by the circuit", TOL, **w)
        psi = gen.state(ctx, max(c.n_qubits, 1))
        if c.n_qubits:
            v = psi.astype(complex)
            for op in both.operations:
                v = op.apply(v)
            ctx.close(v, psi, "state restored by the inverse", TOL, **w)
        ctx.ev("identity_restored")
    ctx.check(_same_frozen(before, _frozen(c)), "inverse() changed the circuit", **w)
    ctx.ev("inverses")
    if c.operations:
        ctx.nontrivial(repr(c), "inverse")
        ctx.sample(c)


def case_inverse_symbolic(ctx):
    rng = ctx.rng
    syms = gen.symbols(rng, rng.randint(1, 3))
    n = rng.choice([1, 2, 2])

    def gate():
        return gen.wrapped_gate(ctx, n, lambda: gen.expression(rng, syms, 1) if rng.random() < 0.7 else gen.typed_number(rng),
                                depth=2, allow=("ctrl", "dag"))

    c = C.Circuit(gen.circuit_ops(ctx, n, rng.choice([1, 2, 3]), gate=gate), n_qubits=n)
    env = {s: rng.uniform(0.3, 2) for s in syms}
    u = _product(c, env)
    inv = c.inverse()
    w = dict(circuit=c, inverse=inv, env=env)
    ctx.check(inv.n_qubits == c.n_qubits and set(inv.free_symbols) == set(c.free_symbols), "width/symbols of the inverse", **w)
    ctx.close(_product(inv, env), u.conj().T, "symbolic inverse at real values", TOL * 10, **w)
    ctx.close(_unitary(inv.bind(env)), u.conj().T, "bound inverse", TOL * 10, **w)
    ctx.close(_unitary(c.bind(env).inverse()), u.conj().T, "inverse of bound", TOL * 10, **w)
    ctx.close(_product(inv.inverse(), env), u, "double inverse", TOL * 10, **w)
    k = rng.randint(0, n)
    cc = c.controlled(k)
    ctx.close(_unitary(cc.bind(env)), _ctrl_at(u, k, n), "bound controlled", TOL * 10, control=k, **w)
    ctx.check(set(cc.free_symbols) == set(c.free_symbols), "symbols of the controlled circuit", got=cc.free_symbols, **w)
    ctx.ev("symbolic_inverses")
    if c.free_symbols:
        ctx.nontrivial(repr(c), "symbolic")
        ctx.sample(c, env)


def _principal(m, p):
    import scipy.linalg

    t, z = scipy.linalg.schur(m, output="complex")
    d = np.diag(t)
    f = np.abs(d) ** p * np.exp(1j * p * np.where(np.abs(d + 1) < 1e-6, np.pi, np.angle(d)))
    return z @ np.diag(f) @ z.conj().T


def case_fractional(ctx):
    """Circuits with fractional powers, whose branch is the listed finding."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    ops, alts, hit = [], [], False
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.6:
            name = rng.choice(["X", "Y", "Z", "H", "S", "T", "SX", "RX", "RZ", "PHASE", "RY", "I"])
            base = gen.make_builtin(rng, name, lambda: rng.choice([0.7, -1.1, 2.0, sympy.pi / 2, 0.3, np.pi / 3]))
            if rng.random() < 0.4:
                base = base.dagger
            q = rng.choice([2, 3, 4, 5])
            g = base.power(1 / q)
            b = ref.to_np(base.matrix)
            k = rng.randint(0, min(2, n - 1)) if rng.random() < 0.4 else 0
            alt = _principal(b.conj().T, 1 / q)
            if k:
                g = g.controlled(k)
                m = np.eye(2 ** (k + 1), dtype=complex)
                m[-2:, -2:] = alt
                alt = m
            hit = hit or bool(np.any(np.abs(np.linalg.eigvals(b) + 1) < 1e-6))
        else:
            g = gen.wrapped_gate(ctx, min(n, 2), depth=1, allow=("dag",))
            alt = ref.to_np(g.matrix).conj().T
        t = gen.qubit_tuple(rng, g.num_qubits, n)
        ops.append(g(*t))
        alts.append((alt, t))
    c = C.Circuit(ops, n_qubits=n)
    u = _product(c)
    inv = c.inverse()
    got = _unitary(inv)
    w = dict(circuit=c, inverse=inv)
    if hit and not np.allclose(got, u.conj().T, atol=TOL) and np.allclose(
            got, ref.circuit_matrix(alts[::-1], n), atol=1e-6):
        ctx.known("power-dagger-branch", "inverse of a circuit with a fractional power", **w)
    else:
        ctx.close(got, u.conj().T, "inverse of a circuit with fractional powers", TOL, **w)
    for k in range(n + 1):
        ctx.close(_unitary(c.controlled(k)), _ctrl_at(u, k, n), "controlled circuit with fractional powers", TOL, control=k, **w)
    ctx.ev("fractional_circuits")
    ctx.nontrivial(repr(c), "fractional")
    ctx.sample(c)


def case_controlled(ctx):
    rng = ctx.rng
    c = _selfadjoint_mix(ctx) if rng.random() < 0.3 else _circ(ctx, n=rng.choice([1, 2, 3, 3, 4]), exp=rng.random() < 0.1)
    n = c.n_qubits
    u = _product(c)
    before = _frozen(c)
    scale = max(1.0, float(np.max(np.abs(u))))
    for k in range(n + 1):
        cc = c.controlled(k)
        w = dict(circuit=c, control=k, controlled=cc)
        ctx.check(cc.n_qubits == n + 1, "width of the controlled circuit", got=cc.n_qubits, **w)
        want = _ctrl_at(u, k, n)
        ctx.close(_product(cc), want, "product of the controlled gates", TOL * scale, **w)
        if rng.random() < 0.5:
            ctx.close(_unitary(cc), want, "to_unitary of the controlled circuit", TOL * scale, **w)
            # on a state: control 0 does nothing
            psi = gen.state(ctx, n + 1).astype(complex)
            mask = np.array([ref.bit(i, k, n + 1) == 0 for i in range(2 ** (n + 1))])
            psi0 = np.where(mask, psi, 0)
            v = psi0
            for op in cc.operations:
                v = op.apply(v)
            ctx.close(v, psi0, "control 0 acts as the identity", TOL * scale, **w)
            ctx.ev("control_zero_states")
        ctx.ev("controlled_circuits")
        ctx.ev(f"control_{'first' if k == 0 else 'last' if k == n else 'middle'}")
    ctx.check(_same_frozen(before, _frozen(c)), "controlled() changed the circuit", circuit=c)
    if c.operations:
        ctx.nontrivial(repr(c), "controlled")
        ctx.sample(c)


def case_nested(ctx):
    """Constructions on top of each other."""
    rng = ctx.rng
    c = _circ(ctx, n=rng.choice([1, 2, 2, 3]))
    u = _product(c)
    done = []
    for _ in range(rng.randint(2, 4)):
        n = c.n_qubits
        r = rng.random()
        if r < 0.35:
            c, u = c.inverse(), u.conj().T
            done.append("inverse")
        elif r < 0.65 and n <= 4:
            k = rng.randint(0, n)
            c, u = c.controlled(k), _ctrl_at(u, k, n)
            done.append(f"controlled({k})")
        elif r < 0.8 and n <= 4:
            k = rng.choice([0, 1, 1])
            c, u = add_ancilla_register(c, k), np.kron(u, np.eye(2**k))
            done.append(f"ancilla({k})")
        else:
            g = rng.choice([C.H, C.SX, C.T, C.X])
            qs = sorted(rng.sample(range(n), rng.randint(0, n)))
            c = apply_gate_to_qubits(c, qs, g)
            u = ref.circuit_matrix([(ref.to_np(g.matrix), (q,)) for q in qs], n) @ u
            done.append(f"{g}{qs}")
        ctx.check(len(u) == 2**c.n_qubits, "width", done=done, circuit=c)
        ctx.close(_product(c), u, "nested constructions", TOL * 10, done=done, circuit=c)
    ctx.close(_unitary(c), u, "to_unitary of nested constructions", TOL * 10, done=done, circuit=c)
    ctx.ev("nested")
    ctx.nontrivial(repr(c), done)
    ctx.sample(done, c)


def case_long(ctx):
    """Many gates that nearly coincide; the same circuit object is asked again after others."""
    rng = ctx.rng
    n = rng.choice([2, 3, 3, 4, 5])
    used = n if rng.random() < 0.6 else rng.randint(1, n)  # idle qubits after (or, moved, before) those in use
    length = rng.choice([4, 10, 10, 20, 20, 33] + ([64, 100] if n <= 3 else []) + [x for x in lits.ints_in(10, 60)])
    ops = gen.similar_ops(ctx, used, length)
    if used < n and rng.random() < 0.4:
        d = rng.randint(1, n - used)
        ops = [op.gate(*[q + d for q in op.qubit_indices]) for op in ops]
    near = list(ops)
    for i in rng.sample(range(length), min(length, 2)):
        near[i] = gen.variant(ctx, near[i].gate)(*near[i].qubit_indices)
    circs = [C.Circuit(ops, n_qubits=n), C.Circuit(near, n_qubits=n), C.Circuit(ops[: length // 2], n_qubits=n)]
    us = [_product(c) for c in circs]
    tol = TOL * 10
    for _ in range(rng.randint(3, 5)):
        i = rng.randrange(len(circs))
        c, u = circs[i], us[i]
        w = dict(circuit=c)
        r = rng.random()
        if r < 0.35:
            inv = c.inverse()
            ctx.check(inv.n_qubits == n and len(inv.operations) >= 0, "width of the inverse", **w)
            ctx.close(_product(inv), u.conj().T, "inverse of a long circuit", tol, **w)
            ctx.close(_unitary(c + inv), np.eye(2**n), "long circuit followed by its inverse", tol, **w)
            ctx.close(_product(inv.inverse()), u, "double inverse of a long circuit", tol, **w)
        elif r < 0.75:
            k = rng.randint(0, n)
            cc = c.controlled(k)
            ctx.check(cc.n_qubits == n + 1, "width of the controlled circuit", control=k, **w)
            ctx.close(_product(cc), _ctrl_at(u, k, n), "long controlled circuit", tol, control=k, **w)
        elif r < 0.85:
            k = rng.choice([1, 1, 2, 3]) if n < 5 else 1
            d = add_ancilla_register(c, k)
            ctx.check(d.n_qubits == n + k, "width with ancillas", ancillas=k, **w)
            ctx.close(_product(d), np.kron(u, np.eye(2**k)), "long circuit with ancillas", tol, ancillas=k, **w)
        else:
            g = rng.choice([C.H, C.SX, C.T])
            qs = sorted(rng.sample(range(n), rng.randint(1, n)))
            d = apply_gate_to_qubits(c, qs, g)
            ctx.close(_product(d), ref.circuit_matrix([(ref.to_np(g.matrix), (q,)) for q in qs], n) @ u, "gates after a long circuit", tol, **w)
        ctx.ev("long_constructions")
    ctx.nontrivial(repr(circs[0]), "long")
    ctx.sample(f"{length} operations on {n} qubits", circs[0].operations[:4])


def _wide_apply(ops, v, n):
    for op in ops:
        v = ref.apply_matrix(v, ref.to_np(op.gate.matrix), op.qubit_indices, n)
    return v


def case_wide(ctx):
    """Registers too wide for dense matrices: judged on random states."""
    rng = ctx.rng
    n = rng.choice([6, 7, 8, 9, 10])
    c = C.Circuit(gen.circuit_ops(ctx, n, rng.choice([3, 8, 15]), gate=lambda: gen.wrapped_gate(ctx, 3, depth=1, allow=("ctrl", "dag"))), n_qubits=n)
    psi = gen.state(ctx, n, "haar").astype(complex)
    phi = _wide_apply(c.operations, psi, n)
    inv = c.inverse()
    w = dict(circuit=c)
    ctx.check(inv.n_qubits == n, "width of the inverse", **w)
    ctx.close(_wide_apply(inv.operations, phi, n), psi, "wide circuit followed by its inverse", TOL, **w)
    ctx.close(_wide_apply(inv.inverse().operations, psi, n), phi, "wide circuit inverted twice", TOL, **w)
    for k in {0, n, rng.randint(0, n), rng.randint(1, n - 1)}:
        cc = c.controlled(k)
        ctx.check(cc.n_qubits == n + 1, "width of the controlled circuit", control=k, **w)
        a, b = rng.choice([(1, 0), (0, 1), (0.6, 0.8j)])
        full = np.zeros((2,) * (n + 1), dtype=complex)
        want = np.zeros((2,) * (n + 1), dtype=complex)
        at = (slice(None),) * k
        full[at + (0,)], full[at + (1,)] = a * psi.reshape((2,) * n), b * psi.reshape((2,) * n)
        want[at + (0,)], want[at + (1,)] = a * psi.reshape((2,) * n), b * phi.reshape((2,) * n)
        ctx.close(_wide_apply(cc.operations, full.reshape(-1), n + 1), want.reshape(-1), "wide controlled circuit", TOL, control=k, **w)
        ctx.ev("wide_controls")
    ctx.nontrivial(repr(c), "wide")
    ctx.sample(f"{n} qubits", c.operations[:3])


def _factory(ctx):
    """(factory, number of parameters or None for a ready gate)."""
    rng = ctx.rng
    r = rng.random()
    if r < 0.55:
        name = rng.choice(["RX", "RY", "RZ", "RH", "PHASE", "U3", "GPi", "GPi2", "Delay", "U3"])
        return gen.builtin(name), ref.BUILTINS[name][0]
    if r < 0.65:
        for _ in range(30):
            d, k, q = gen.custom_parametric(ctx)
            if q == 1:
                return d, k
    if r < 0.72:
        return gen.custom_numeric(ctx, 1)(), None
    if r < 0.9:
        return gen.builtin(rng.choice(["X", "Y", "Z", "H", "I", "S", "SX", "T"])), None
    g = gen.base_gate(ctx, 1)
    return rng.choice([g.dagger, g.power(2), g]), None


def _rows(ctx, count, k):
    rng = ctx.rng
    r = rng.random()
    if r < 0.35:
        return ctx.np.uniform(-3, 3, size=(count, k))
    vals = [[gen.typed_number(rng) for _ in range(k)] for _ in range(count)]
    if r < 0.5:
        s = sympy.symbols(f"t0:{max(1, count * k)}")
        vals = [[s[i * k + j] for j in range(k)] for i in range(count)]
    elif r < 0.6 and count:
        vals = [list(vals[0]) for _ in range(count)]
    if rng.random() < 0.3:
        return [tuple(x) for x in vals]
    if rng.random() < 0.2:
        return tuple(tuple(x) for x in vals)
    return vals


def _row_eq(params, row):
    return len(params) == len(row) and all(bool(a == b) for a, b in zip(params, row))


def _gate_ok(ctx, gate, factory, row, /, **w):
    want = factory if row is None else factory(*row)
    ctx.check(bool(gate == want), "gate of the layer", gate=gate, want=want, **w)
    if row is not None:
        ctx.check(_row_eq(gate.params, list(row)), "parameters of the layer's gate", got=gate.params, want=row, **w)


def case_layer(ctx):
    rng = ctx.rng
    factory, k = _factory(ctx)
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 12, 17, 33, 70])
    rows = None if k is None else _rows(ctx, n, k)
    w = dict(factory=str(factory), n=n, rows=rows)
    c = create_layer_of_gates(n, factory, rows) if rows is not None or rng.random() < 0.5 else create_layer_of_gates(n, factory)
    ctx.check(c.n_qubits == n, "width of the layer", got=c.n_qubits, **w)
    ctx.check(len(c.operations) == n, "number of gates in the layer", got=len(c.operations), **w)
    by_qubit = {}
    for op in c.operations:
        ctx.check(len(op.qubit_indices) == 1, "layer gate acts on one qubit", got=op, **w)
        q = int(op.qubit_indices[0])
        ctx.check(q not in by_qubit and 0 <= q < n, "one gate per qubit 0..n-1", got=op, **w)
        by_qubit[q] = op.gate
    for q in range(n):
        _gate_ok(ctx, by_qubit[q], factory, None if rows is None else rows[q], qubit=q, **w)
        ctx.ev("layer_gates")
    if 1 <= n <= 5 and not c.free_symbols:
        u = np.eye(1)
        for q in range(n):
            u = np.kron(u, ref.to_np((factory if rows is None else factory(*rows[q])).matrix))
        ctx.close(_unitary(c), u, "matrix of the layer", TOL, **w)
        ctx.ev("layer_matrices")
    ctx.ev("layers")
    if n:
        ctx.nontrivial(str(factory), n, str(rows))
        ctx.sample(str(factory), n, rows)


def case_apply(ctx):
    rng = ctx.rng
    factory, k = _factory(ctx)
    base = _circ(ctx, n=rng.choice([1, 2, 3, 4])) if rng.random() < 0.8 else C.Circuit()
    before = _frozen(base)
    hi = rng.choice([3, 5, 9, 40, 100, 700])
    count = rng.choice([0, 1, 2, 3, 5, 8])
    qs = rng.sample(range(hi), min(count, hi))
    shape = rng.random()
    if qs and rng.random() < 0.4:
        qs += [rng.choice(qs) for _ in range(rng.randint(1, 3))]
        rng.shuffle(qs)
    uniq = sorted(set(qs))
    coll = (list(qs) if shape < 0.45 else tuple(qs) if shape < 0.65 else set(qs) if shape < 0.8
            else np.array(qs, dtype=int) if shape < 0.9 and qs else frozenset(qs))
    rows = None if k is None else _rows(ctx, len(uniq), k)
    w = dict(factory=str(factory), qubits=coll, rows=rows, base=base)
    c = apply_gate_to_qubits(base, coll, factory, rows)
    ctx.check(_same_frozen(before, _frozen(base)), "the given circuit was changed", **w)
    ctx.check(len(c.operations) == len(base.operations) + len(uniq), "number of gates added", got=c, **w)
    ctx.check(all(a is b or a == b for a, b in zip(c.operations, base.operations)), "existing operations moved or changed",
              got=c, **w)
    added = c.operations[len(base.operations):]
    ctx.check(sorted(int(o.qubit_indices[0]) for o in added) == uniq and all(len(o.qubit_indices) == 1 for o in added),
              "one gate per distinct qubit", got=added, **w)
    width = max([base.n_qubits] + [q + 1 for q in uniq])
    ctx.check(c.n_qubits == width, "width after applying", got=c.n_qubits, want=width, **w)
    if rows is None:
        for o in added:
            _gate_ok(ctx, o.gate, factory, None, **w)
    else:
        left = [list(r) for r in rows]
        for o in added:
            i = next((i for i, r in enumerate(left) if _row_eq(o.gate.params, r)), None)
            ctx.check(i is not None, "a parameter row is used more than once or not at all", op=o, left=left, **w)
            _gate_ok(ctx, o.gate, factory, left.pop(i), **w)
        ctx.check(not left, "unused parameter rows", left=left, **w)
    ctx.ev("applied_collections")
    ctx.ev("with_duplicates" if len(uniq) != len(qs) else "without_duplicates")
    if uniq:
        ctx.nontrivial(str(factory), str(coll), str(rows))
        ctx.sample(str(factory), coll, rows)


def case_ancilla(ctx):
    rng = ctx.rng
    c = _circ(ctx, n=rng.choice([1, 2, 3])) if rng.random() < 0.9 else C.Circuit(n_qubits=rng.randint(0, 2))
    k = rng.choice([0, 0, 1, 1, 2, 3])
    before = _frozen(c)
    u = _product(c)
    d = add_ancilla_register(c, k)
    w = dict(circuit=c, ancillas=k, extended=d)
    ctx.check(d.n_qubits == c.n_qubits + k, "width with ancillas", **w)
    want = np.kron(u, np.eye(2**k))
    ctx.close(_product(d), want, "product with ancillas", TOL * max(1, float(np.max(np.abs(u)))), **w)
    ctx.close(_unitary(d), want, "matrix with ancillas", TOL * max(1, float(np.max(np.abs(u)))), **w)
    ctx.check(_same_frozen(before, _frozen(c)), "the given circuit was changed", **w)
    big = rng.choice([5, 20, 100])
    ctx.check(add_ancilla_register(c, big).n_qubits == c.n_qubits + big, "width with many ancillas", circuit=c, ancillas=big)
    e = add_ancilla_register(d, 1)
    ctx.check(e.n_qubits == d.n_qubits + 1, "ancillas added twice", **w)
    ctx.ev("ancillas")
    ctx.nontrivial(repr(c), k)
    ctx.sample(c, k)


WORKLOADS = [
    dict(name="inverse", case=case_inverse, quick=450, thorough=6000, hang="inconclusive", cpu_limit=20.0),
    dict(name="symbolic", case=case_inverse_symbolic, quick=100, thorough=1500, hang="inconclusive", cpu_limit=20.0),
    dict(name="fractional", case=case_fractional, quick=120, thorough=2000, hang="never", cpu_limit=10.0),
    dict(name="controlled", case=case_controlled, quick=150, thorough=3000, hang="inconclusive", cpu_limit=20.0),
    dict(name="nested", case=case_nested, quick=120, thorough=2500, hang="inconclusive", cpu_limit=20.0),
    dict(name="long", case=case_long, quick=80, thorough=1500, hang="inconclusive", cpu_limit=20.0),
    dict(name="wide", case=case_wide, quick=60, thorough=1200, hang="inconclusive", cpu_limit=20.0),
    dict(name="layer", case=case_layer, quick=250, thorough=5000),
    dict(name="apply", case=case_apply, quick=350, thorough=6000),
    dict(name="ancilla", case=case_ancilla, quick=120, thorough=2000),
]
REQUIRED_EVENTS = ("identity_restored", "inverses", "symbolic_inverses", "controlled_circuits", "control_first",
                   "control_middle", "control_last", "nested", "layers", "layer_matrices", "applied_collections",
                   "with_duplicates", "ancillas", "fractional_circuits", "long_constructions", "wide_controls")
MAX_RESOURCE_FRACTION = 0.05
