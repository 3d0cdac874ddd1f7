"""C18 - decomposing a circuit never changes what it does."""
import cmath

import numpy as np
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.decompositions import U3GateToRotation, decompose_operations, decompose_orquestra_circuit

from vmon import gen, lits, ref
from vmon.core import hold_results

hold_results(globals(), "decompose_operations", "decompose_orquestra_circuit")

PROPERTY = "C18"
RULE = (
    "random circuits of up to six qubits mixing general rotations (plain, under 1-4 controls on any ordered qubits, inverted, "
    "powered, symbolic, shared gate objects) with every other gate, custom gates, non-gate operations and idle qubits, at all "
    "angles; lists of bundled and user rules (chains producing each other's inputs, growing, shrinking, emptying productions "
    "given as lists, tuples and generators), over circuits and over plain values. Oracle: dense matrices up to ONE global "
    "phase, own sequential interpreter of rule lists. Identified by circuit and rules."
)
ASSUMPTIONS = [
    "user rules are deterministic and look at one operation only",
    "custom gates are not named U3",
]

RULES = [U3GateToRotation()]
TOL = 1e-7


def _is_u3(op):
    g = op.gate
    return g.name == "U3" or (isinstance(g, C.ControlledGate) and g.wrapped_gate.name == "U3")


def _steps(ops, values, lossy=False):
    """Matrices of the operations; lossy: without the phase the finding loses."""
    out = []
    for op in ops:
        m = ref.subs_np(op.gate.matrix, values)
        if lossy and isinstance(op.gate, C.ControlledGate) and op.gate.wrapped_gate.name == "U3":
            _, phi, lam = (ref.eval_expr(sympy.sympify(p), values).real for p in op.gate.params)
            m = m.copy()
            m[-2:, -2:] *= cmath.exp(-0.5j * (phi + lam))
        out.append((m, tuple(op.qubit_indices)))
    return out


def _compare(ctx, before, after, n, values, **w):
    """Same action up to one global phase of the whole sequence."""
    a = ref.circuit_matrix(_steps(after, values), n)
    b = ref.circuit_matrix(_steps(before, values), n)
    ctx.ev("oracle")
    if not np.all(np.isfinite(a)):
        ctx.fail("decomposition is not finite", got=after, **w)
    dist = ref.global_phase_distance(a, b)
    if dist <= TOL:
        ctx.ev("equivalent")
        return
    lossy = ref.circuit_matrix(_steps(before, values, lossy=True), n)
    if ref.global_phase_distance(a, lossy) <= TOL:
        ctx.known("controlled-u3-phase", f"controlled U3 loses its relative phase (distance {dist:.3g})", got=after, **w)
        return
    ctx.fail(f"decomposition acts differently (distance {dist:.3g})", got=after, **w)


def _angle(rng):
    r = rng.random()
    if r < 0.5:
        return gen.angle(rng)
    if r < 0.75:
        return gen.typed_number(rng)
    return rng.choice([0, 0.0, np.pi, -np.pi, np.pi / 2, -np.pi / 2, 2 * np.pi, 4 * np.pi, sympy.pi, sympy.pi / 2, 3 * np.pi, 1e-9, 1e-4])


def _u3(rng, param=None):
    param = param or (lambda: _angle(rng))
    a, b, c = param(), param(), param()
    r = rng.random()
    if r < 0.1:
        c = -b
    elif r < 0.2:
        c = b
    elif r < 0.25:
        a = 0
    return C.U3(a, b, c)


def _gate(ctx, room, param=None):
    rng = ctx.rng
    r = rng.random()
    if r < 0.3:
        return _u3(rng, param)
    if r < 0.55 and room >= 2:
        g = _u3(rng, param)
        k = rng.randint(1, min(room - 1, 4))
        if k > 1 and rng.random() < 0.3:
            return g.controlled(1).controlled(k - 1)
        return g.controlled(k)
    if r < 0.65:
        g = _u3(rng, param)
        g = rng.choice([lambda: g.dagger, lambda: g.dagger.dagger, lambda: g.controlled(1).dagger, lambda: g.dagger.controlled(1)])()
        if g.num_qubits <= room:
            return g
    if r < 0.75:
        g = rng.choice([C.RZ, C.RY, C.RX, C.PHASE])((param or (lambda: _angle(rng)))())
        if room >= 2 and rng.random() < 0.5:
            return g.controlled(rng.randint(1, room - 1))
        return g
    return gen.wrapped_gate(ctx, max_qubits=min(room, 3), depth=1, param=param or (lambda: _angle(rng)))


def _random_ops(ctx, n, length, param=None):
    rng = ctx.rng
    ops, pool = [], []
    for _ in range(length):
        g = rng.choice(pool) if pool and rng.random() < 0.25 else _gate(ctx, n, param)
        pool.append(g)
        ops.append(g(*gen.qubit_tuple(rng, g.num_qubits, n)))
    return ops


def _same_op(a, b):
    return a is b or (type(a) is type(b) and a == b and repr(a) == repr(b))


def equivalence(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    syms = gen.symbols(rng, 3)
    values = {s: rng.uniform(-3, 3) for s in syms}
    symbolic = rng.random() < 0.15
    param = (lambda: gen.expression(rng, syms, 1) if rng.random() < 0.6 else rng.uniform(-3, 3)) if symbolic else None
    ops = _random_ops(ctx, n, rng.choice([1, 1, 2, 3, 4, 6, 8]), param)
    circ = C.Circuit(ops, n_qubits=n) if rng.random() < 0.6 else C.Circuit(ops)
    rules = RULES if rng.random() < 0.8 else rng.choice([(U3GateToRotation(),), [U3GateToRotation(), U3GateToRotation()]])
    before = repr(circ)
    got = decompose_orquestra_circuit(circ, rules)
    w = dict(circuit=circ)
    ctx.check(isinstance(got, C.Circuit), "decomposition: type", got=got, **w)
    ctx.check(got.n_qubits == circ.n_qubits, "decomposition changed the width", got=got, **w)
    ctx.check(repr(circ) == before, "decomposition changed its argument", **w)
    ctx.check(not any(_is_u3(op) for op in got.operations), "a general rotation was not replaced", got=got, **w)
    _compare(ctx, circ.operations, got.operations, circ.n_qubits, values, **w)
    # op by op
    pieces = []
    for op in circ.operations:
        single = list(decompose_orquestra_circuit(C.Circuit([op]), rules).operations)
        if _is_u3(op):
            qs = sorted(set(op.qubit_indices))
            ctx.check(all(set(o.qubit_indices) <= set(qs) for o in single), "replacement acts on other qubits", got=single, operation=op)
            _compare(ctx, [op], single, circ.n_qubits, values, operation=op)
            ctx.ev("replaced")
            if isinstance(op.gate, C.ControlledGate):
                ctx.ev("replaced_controlled")
        else:
            ctx.check(len(single) == 1 and _same_op(single[0], op), "operation changed although no rule applies", got=single, operation=op)
            ctx.ev("kept")
        pieces += single
    ctx.check(len(pieces) == len(got.operations) and all(_same_op(a, b) for a, b in zip(pieces, got.operations)),
              "operations are not decomposed one by one in their order", got=got, want=pieces, **w)
    ctx.nontrivial(before)
    ctx.sample("circuit", circ, "->", len(got.operations), "operations")


def angles(ctx):
    """One plain or controlled rotation at structured angle triples."""
    rng = ctx.rng
    grid = [k * np.pi / 4 for k in range(-8, 9)]
    t = [rng.choice(grid) if rng.random() < 0.7 else _angle(rng) for _ in range(3)]
    k = rng.choice([0, 0, 0, 1, 1, 2, 3])
    n = k + 1 + rng.choice([0, 0, 1, 2])
    g = C.U3(*t)
    g = g.controlled(k) if k else g
    op = g(*gen.qubit_tuple(rng, k + 1, n))
    got = decompose_orquestra_circuit(C.Circuit([op], n_qubits=n), RULES)
    ctx.check(not any(_is_u3(o) for o in got.operations), "a general rotation was not replaced", got=got, operation=op)
    _compare(ctx, [op], got.operations, n, {}, operation=op)
    also = decompose_operations([op], RULES)
    ctx.check(len(also) == len(got.operations) and all(_same_op(a, b) for a, b in zip(also, got.operations)),
              "decompose_operations differs from decompose_orquestra_circuit", got=also, operation=op)
    ctx.ev("replaced")
    if k:
        ctx.ev("replaced_controlled")
    ctx.nontrivial(repr(op))


def _non_gate(ctx, n):
    rng = ctx.rng
    if rng.random() < 0.5:
        return C.ResetOperation(rng.randrange(n))
    return C.MultiPhaseOperation(tuple(rng.uniform(-3, 3) for _ in range(2**n)))


def mixed_operations(ctx):
    """Circuits with non-gate operations: they stay where they are."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    ops = _random_ops(ctx, n, rng.choice([0, 1, 2, 4, 6]))
    for _ in range(rng.randint(1, 3)):
        ops.insert(rng.randint(0, len(ops)), _non_gate(ctx, n))
    circ = C.Circuit(ops, n_qubits=n) if rng.random() < 0.5 else C.Circuit(ops)
    got = decompose_orquestra_circuit(circ, RULES)
    w = dict(circuit=circ)

    def split(seq):
        runs, marks = [[]], []
        for op in seq:
            if isinstance(op, C.GateOperation):
                runs[-1].append(op)
            else:
                marks.append(op)
                runs.append([])
        return runs, marks

    (ra, ma), (rb, mb) = split(circ.operations), split(got.operations)
    ctx.check(len(ma) == len(mb) and all(_same_op(a, b) for a, b in zip(ma, mb)), "non-gate operations changed", got=got, **w)
    for a, b in zip(ra, rb):
        _compare(ctx, a, b, circ.n_qubits, {}, segment=a, **w)
    ctx.check(got.n_qubits == circ.n_qubits, "decomposition changed the width", got=got, **w)
    ctx.ev("non_gate_kept", len(ma))
    ctx.nontrivial(repr(circ))


def no_rules(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    ops = _random_ops(ctx, n, rng.choice([0, 1, 2, 5, 9]))
    if rng.random() < 0.3:
        ops.insert(rng.randint(0, len(ops)), _non_gate(ctx, n))
    circ = C.Circuit(ops, n_qubits=rng.choice([n, n + 2])) if rng.random() < 0.6 else C.Circuit(ops)
    for empty in ([], ()):
        got = decompose_orquestra_circuit(circ, empty)
        ctx.check(got == circ and got.n_qubits == circ.n_qubits and len(got.operations) == len(circ.operations)
                  and all(_same_op(a, b) for a, b in zip(got.operations, circ.operations)), "empty rule list changed the circuit", got=got, circuit=circ)
        seq = decompose_operations(rng.choice([list, tuple, iter])(circ.operations), empty)
        ctx.check(len(seq) == len(circ.operations) and all(_same_op(a, b) for a, b in zip(seq, circ.operations)), "empty rule list changed the operations", got=seq, circuit=circ)
    ctx.ev("empty_rule_lists")
    ctx.nontrivial(repr(circ))


def long_circuits(ctx):
    """Many rotations that nearly coincide, through rule objects that are used again and again."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 3, 4])
    rules = rng.choice([RULES, [U3GateToRotation()]])
    base = [[_angle(rng) if rng.random() < 0.3 else rng.uniform(-3, 3) for _ in range(3)] for _ in range(2)]
    pool = []
    for _ in range(rng.randint(3, 9)):
        t = list(rng.choice(base))
        r = rng.random()
        i = rng.randrange(3)
        if r < 0.4:
            t[i] = t[i] + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1)
        elif r < 0.5:
            t[i] = -t[i]
        elif r < 0.6:
            t[i] = t[i] + rng.choice([2, -2, 4]) * np.pi
        elif r < 0.8:
            rng.shuffle(t)
        g = C.U3(*t)
        k = rng.choice([0, 0, 1, 2]) if n > 1 else 0
        pool.append(g.controlled(min(k, n - 1)) if k else g)
    pool += gen.similar_pool(ctx, n)[:3]
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        while len(ops) < rng.choice([5, 12, 30, 65, *lits.ints_in(5, 120)]):
            g = rng.choice(pool)
            op = g(*gen.qubit_tuple(rng, g.num_qubits, n))
            ops += [op] * rng.choice([1, 1, 1, 2, 3])
            if len(ops) > 1 and rng.random() < 0.1:
                ops.append(rng.choice(ops))
        circ = C.Circuit(ops, n_qubits=n)
        got = decompose_orquestra_circuit(circ, rules)
        # op by op through a rule of its own, so that phases of controlled ones stay identifiable
        pieces = []
        for op in ops:
            single = decompose_operations([op], [U3GateToRotation()])
            pieces.append(list(single))
        flat = [o for p in pieces for o in p]
        ctx.check(len(flat) == len(got.operations) and all(_same_op(a, b) for a, b in zip(flat, got.operations)),
                  "a long circuit is not decomposed as its operations are", got=got, want=flat, circuit=circ)
        judged = set()
        for op, p in zip(ops, pieces):
            key = (id(op), repr(p))  # ops keeps every operation alive
            if _is_u3(op):
                if key not in judged:
                    _compare(ctx, [op], p, n, {}, operation=op)
                judged.add(key)
            else:
                ctx.check(len(p) == 1 and _same_op(p[0], op), "operation changed although no rule applies", got=p, operation=op)
        if not any(_is_u3(op) and isinstance(op.gate, C.ControlledGate) for op in ops):
            _compare(ctx, ops, got.operations, n, {}, circuit=circ)
        ctx.ev("long_circuits")
        ctx.nontrivial(repr(circ))


def wide_registers(ctx):
    """A few operations on far-apart qubits of a wide register; judged on the qubits they use."""
    rng = ctx.rng
    used = sorted(rng.sample(range(rng.choice([9, 12, 40, 300])), rng.choice([3, 4, 5])))
    n = used[-1] + 1 + rng.choice([0, 0, 1, 9])
    ops = []
    for op in _random_ops(ctx, len(used), rng.choice([1, 2, 4, 7])):
        ops.append(op.gate(*[used[q] for q in op.qubit_indices]))
    circ = C.Circuit(ops, n_qubits=n)
    got = decompose_orquestra_circuit(circ, RULES)
    w = dict(circuit=circ)
    ctx.check(got.n_qubits == n, "decomposition changed the width", got=got, **w)
    ctx.check(all(set(o.qubit_indices) <= set(used) for o in got.operations), "decomposition acts on other qubits", got=got, **w)
    ctx.check(not any(_is_u3(op) for op in got.operations), "a general rotation was not replaced", got=got, **w)

    def packed(ops):
        return [o.gate(*[used.index(q) for q in o.qubit_indices]) for o in ops]

    _compare(ctx, packed(ops), packed(got.operations), len(used), {}, **w)
    ctx.ev("wide_registers")
    ctx.nontrivial(repr(circ))


class Rule:
    """A user rule over any kind of operation."""

    def __init__(self, name, pred, prod, shape):
        self.name, self.pred, self.prod, self.shape = name, pred, prod, shape
        self.asked, self.done = [], []

    def predicate(self, operation):
        self.asked.append(operation)
        return self.pred(operation)

    def production(self, operation):
        self.done.append(operation)
        out = list(self.prod(operation))
        if self.shape == "generator":
            return (x for x in out)
        if self.shape == "reversed":
            return reversed(out[::-1])
        if self.shape == "tuple":
            return tuple(out)
        return out

    def __repr__(self):
        return self.name


def _interpret(ops, rules):
    """Rule lists by definition: the whole list, rule after rule."""
    seqs = [list(ops)]
    for r in rules:
        nxt = []
        for op in seqs[-1]:
            nxt += list(r.prod(op)) if r.pred(op) else [op]
        seqs.append(nxt)
    return seqs


def value_rules(ctx):
    """Rule lists over integers: order, chaining and no re-application."""
    rng = ctx.rng
    rules = []
    for i in range(rng.randint(1, 5)):
        m, r0 = rng.randint(2, 4), rng.randint(0, 3)
        k = rng.choice([0, 1, 1, 2, 2, 3])
        adds = [rng.randint(0, 9) for _ in range(k)]
        if rng.random() < 0.2:
            pred, txt = (lambda x: True), "any"
        else:
            pred, txt = (lambda x, m=m, r0=r0: x % m == r0 % m), f"x%{m}=={r0 % m}"
        rules.append(Rule(f"[{txt} -> 3x+{adds}]", pred, lambda x, adds=adds: [3 * x + a for a in adds], rng.choice(["list", "tuple", "generator", "reversed"])))
    if len(rules) > 1 and rng.random() < 0.2:
        rules.append(rules[0])
    ops = [rng.randint(0, 20) for _ in range(rng.choice([0, 1, 1, 2, 4, 7]))]
    seqs = _interpret(ops, rules)
    given = rng.choice([list, tuple, iter])(ops)
    got = list(decompose_operations(given, rng.choice([list, tuple])(rules)))
    w = dict(operations=ops, rules=rules)
    ctx.check(got == seqs[-1], "rules are not applied in order, each to the output of the previous one", got=got, want=seqs[-1], **w)
    for i, r in enumerate(rules):
        want = [x for j, s in enumerate(rules) if s is r for x in seqs[j] if r.pred(x)]
        ctx.check(set(r.done) == set(want), f"rule {i} was applied to other operations than its predicate accepts", got=r.done, want=want, **w)
    ctx.ev("rule_lists")
    if len(rules) > 1:
        ctx.ev("rule_chains")
    ctx.nontrivial(ops, repr(rules))


def _gate_rules(rng):
    pi = np.pi

    def on(name, prod):
        return (lambda op: isinstance(op, C.GateOperation) and op.gate.name == name), prod

    table = {
        "RX->U3": on("RX", lambda op: [C.U3(op.params[0], -pi / 2, pi / 2)(*op.qubit_indices)]),
        "RY->U3": on("RY", lambda op: [C.U3(op.params[0], 0, 0)(*op.qubit_indices)]),
        "H->U3": on("H", lambda op: [C.U3(pi / 2, 0, pi)(*op.qubit_indices)]),
        "SWAP->CNOT": on("SWAP", lambda op: [C.CNOT(*op.qubit_indices), C.CNOT(*op.qubit_indices[::-1]), C.CNOT(*op.qubit_indices)]),
        "CNOT->CZ": on("CNOT", lambda op: [C.H(op.qubit_indices[1]), C.CZ(*op.qubit_indices), C.H(op.qubit_indices[1])]),
        "CZ->CNOT": on("CZ", lambda op: [C.H(op.qubit_indices[1]), C.CNOT(*op.qubit_indices), C.H(op.qubit_indices[1])]),
        "Y->SXS": on("Y", lambda op: [C.S.dagger(*op.qubit_indices), C.X(*op.qubit_indices), C.S(*op.qubit_indices)]),
        "X->HZH": on("X", lambda op: [C.H(*op.qubit_indices), C.Z(*op.qubit_indices), C.H(*op.qubit_indices)]),
        "Z->SS": on("Z", lambda op: [C.S(*op.qubit_indices), C.S(*op.qubit_indices)]),
        "I->": on("I", lambda op: []),
        "CNOT->CU3": on("CNOT", lambda op: [C.U3(pi, 0, pi).controlled(1)(*op.qubit_indices)]),
    }
    names = rng.sample(list(table), rng.randint(1, 5))
    return [Rule(k, *table[k], rng.choice(["list", "tuple", "generator", "reversed"])) for k in names]


def gate_rules(ctx):
    """Chains of user rules and the bundled one over circuits."""
    rng = ctx.rng
    n = rng.choice([2, 2, 3, 4])
    rules = _gate_rules(rng)
    bundled = Rule("U3", lambda op: isinstance(op, C.GateOperation) and _is_u3(op), None, "list")
    ours = list(rules)
    theirs = list(rules)
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randint(0, len(ours))
        ours.insert(i, bundled)
        theirs.insert(i, U3GateToRotation())
    ops = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        name = rng.choice(["RX", "RY", "H", "SWAP", "CNOT", "CZ", "Y", "X", "Z", "I", "U3", "RZ", "T", "CU3"])
        g = _u3(rng).controlled(1) if name == "CU3" else gen.make_builtin(rng, name, lambda: rng.uniform(-3, 3))
        ops.append(g(*gen.qubit_tuple(rng, g.num_qubits, n)))
    circ = C.Circuit(ops, n_qubits=n)
    bundled.prod = lambda op: decompose_operations([op], [U3GateToRotation()])
    want = _interpret(ops, ours)
    got = decompose_orquestra_circuit(circ, theirs)
    w = dict(circuit=circ, rules=ours)
    ctx.check(len(got.operations) == len(want[-1]) and all(_same_op(a, b) for a, b in zip(got.operations, want[-1])),
              "rules are not applied in order, each to the output of the previous one", got=got, want=want[-1], **w)
    ctx.check(got.n_qubits == n, "decomposition changed the width", got=got, **w)
    # every rule here preserves the action: follow it stage by stage
    for i, r in enumerate(ours):
        _compare(ctx, want[i], want[i + 1], n, {}, stage=r, **w)
    ctx.ev("rule_chains")
    ctx.nontrivial(repr(circ), repr(ours))


REQUIRED_EVENTS = ("equivalent", "replaced", "replaced_controlled", "kept", "non_gate_kept", "empty_rule_lists", "rule_lists", "rule_chains", "long_circuits", "wide_registers")
WORKLOADS = [
    dict(name="equivalence", case=equivalence, quick=900, thorough=20000),
    dict(name="angles", case=angles, quick=700, thorough=20000),
    dict(name="long", case=long_circuits, quick=60, thorough=3000, hang="inconclusive"),
    dict(name="wide", case=wide_registers, quick=200, thorough=4000),
    dict(name="mixed_operations", case=mixed_operations, quick=200, thorough=4000),
    dict(name="no_rules", case=no_rules, quick=150, thorough=2000),
    dict(name="value_rules", case=value_rules, quick=2000, thorough=40000),
    dict(name="gate_rules", case=gate_rules, quick=400, thorough=8000),
]
