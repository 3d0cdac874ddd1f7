"""C06 - binding parameters commutes with evaluating the circuit."""
import numpy as np
import sympy

from orquestra.quantum import circuits as C

from vmon import gen, ref

PROPERTY = "C06"
RULE = (
    "random circuits of built-in, custom and wrapped (controlled/dagger) gates and phase/reset "
    "operations with expression-valued parameters, bound with partial, total, superfluous, "
    "permuting, expression-valued and symbol-renaming maps, in one or several steps, via gate, "
    "operation and circuit. Oracle: our own evaluation of the unbound matrices and parameters at "
    "the composed assignment. Reported free symbols are compared with an independent walk over "
    "the bound parameters and with numeric dependence. Identified by circuit and map."
)
ASSUMPTIONS = [
    "matrices and parameters are compared at sampled assignments (1e-8)",
    "order of free symbols within a single operation is not asserted",
]
TOL = 1e-8
KEYS = ["a", "b", "c", "x", "y", "z", "theta", "phi", "beta_2", "beta_10", "alpha", "gamma", "t"]
# names which denote functions, constants or assumptions elsewhere
FUNCTION_NAMES = ["beta", "gamma", "zeta", "lambda", "S", "N", "Q", "O", "C", "LC", "sin", "pi_", "I_", "re", "test", "ff", "Ei", "sign", "field"]


def _keys(rng):
    return KEYS if rng.random() < 0.7 else rng.sample(KEYS, 3) + gen.ODD_NAMES


def _walk_symbols(e):
    if isinstance(e, sympy.Symbol):
        return {e}
    out = set()
    for a in getattr(e, "args", ()) if isinstance(e, sympy.Basic) else ():
        out |= _walk_symbols(a)
    return out


def _env(rng, syms):
    return {s: rng.uniform(0.3, 2.2) for s in syms}


def _expr(rng, syms):
    r = rng.random()
    s, t = rng.choice(syms), rng.choice(syms)
    if r < 0.3:
        return s
    if r < 0.6:
        return gen.expression(rng, syms, rng.choice([1, 2, 2, 3]))
    return rng.choice([s + t, s - t, s * t, s / 2 - t, 2 * s + sympy.pi * t, s / t, s**2 - t, sympy.cos(s) * t,
                       sympy.sin(s + 2 * t), 0.3 * s, -s, -t + 1, sympy.sqrt(s**2 + t**2), sympy.exp(-s) * t, (s + 1) * (t - 1),
                       s * t - s, sympy.pi * s, s - sympy.Rational(1, 3) * t, s**t,
                       sympy.Abs(s - t), sympy.re(s) + t, sympy.Abs(s), sympy.Max(s, t), sympy.log(s + 2), sympy.atan(s * t), s + sympy.im(t)])


def _param(rng, syms, p_num=0.25):
    return gen.typed_number(rng) if rng.random() < p_num else _expr(rng, syms)


def _gate(ctx, rng, syms, max_qubits, depth=2):
    names = _keys(rng) + ["q", "r"]

    def param():
        return _param(rng, syms)

    r = rng.random()
    if r < 0.35:
        d, n_params, k = gen.custom_parametric(ctx, names=names)
        if k <= max_qubits:
            g = d(*[param() for _ in range(n_params)])
        else:
            g = C.RX(param())
    else:
        pool = [n for n, (np_, q) in ref.BUILTINS.items() if q <= max_qubits and (np_ or rng.random() < 0.25)]
        g = gen.make_builtin(rng, rng.choice(pool), param)
    for _ in range(rng.randint(0, depth)):
        if rng.random() < 0.5 and g.num_qubits < max_qubits:
            g = g.controlled(rng.randint(1, max_qubits - g.num_qubits))
        else:
            g = C.Dagger(g) if rng.random() < 0.2 else g.dagger
    return g


def _circuit(ctx, rng, syms, n, length, nongate=True, depth=2):
    ops = []
    for _ in range(length):
        r = rng.random()
        if nongate and r < 0.12:
            ops.append(C.MultiPhaseOperation(tuple(_param(rng, syms, 0.4) for _ in range(2**n))))
        elif nongate and r < 0.17:
            ops.append(C.ResetOperation(rng.randrange(n)))
        else:
            g = _gate(ctx, rng, syms, n, depth)
            ops.append(g(*gen.qubit_tuple(rng, g.num_qubits, n)))
    return C.Circuit(ops, n_qubits=n)


def _value(rng, syms, symbolic):
    if symbolic and rng.random() < 0.55:
        s, t = rng.choice(syms), rng.choice(syms)
        return rng.choice([s, t, s + t, 2 * s, s * t, s - 1, sympy.cos(s), -s, s + 0.5])
    r = rng.random()
    if r < 0.5:
        return rng.uniform(0.3, 2.2)
    if r < 0.6:
        return np.float64(rng.uniform(0.3, 2.2))
    if r < 0.75:
        return rng.choice([1, 2, 3])
    if r < 0.85:
        return sympy.pi * sympy.Rational(rng.randint(1, 7), 8)
    return sympy.Rational(rng.randint(1, 20), 9)


def _map(rng, syms, extra):
    """A symbol map of one of several shapes; returns (map, kind)."""
    r = rng.random()
    if r < 0.2 and len(syms) >= 2:  # permute / swap
        p = list(syms)
        rng.shuffle(p)
        return dict(zip(syms, p)), "permutation"
    if r < 0.45:
        return {s: _value(rng, syms, False) for s in syms}, "total"
    if r < 0.65:
        k = rng.randint(0, len(syms))
        m = {s: _value(rng, syms, False) for s in rng.sample(syms, k)}
        return m, "partial"
    if r < 0.85:
        k = rng.randint(1, len(syms))
        return {s: _value(rng, syms + extra, True) for s in rng.sample(syms, k)}, "symbolic"
    m = {s: _value(rng, syms, True) for s in rng.sample(syms, rng.randint(0, len(syms)))}
    for e in extra:
        m[e] = _value(rng, syms, False)
    return m, "superfluous"


def _composed(m, env):
    out = dict(env)
    for s, v in m.items():
        out[s] = ref.eval_expr(v, env) if isinstance(v, sympy.Basic) else complex(v)
    return out


def _mag(values, p):
    try:
        return max(1.0, abs(ref.eval_expr(p, values)))
    except Exception:
        return 1.0


def _check_op(ctx, new, old, m, env, comp, label, **w):
    ctx.check(type(new) is type(old), f"{label}: operation kind changed", new=new, old=old, **w)
    ctx.check(tuple(new.qubit_indices) == tuple(old.qubit_indices), f"{label}: qubits changed", new=new, old=old, **w)
    ctx.check(len(new.params) == len(old.params), f"{label}: number of params", new=new.params, old=old.params, **w)
    scale = 1.0
    for a, b in zip(new.params, old.params):
        used = _walk_symbols(b) & set(m)
        if not used:
            ctx.check(type(a) is type(b) and bool(a == b), f"{label}: parameter without mapped symbols changed",
                      new=a, old=b, **w)
            continue
        va, vb = ref.eval_expr(a, env), ref.eval_expr(b, comp)
        if not (np.isfinite(va) and np.isfinite(vb)) or abs(vb) > 1e6:
            return False
        scale = max(scale, abs(vb))
        if abs(va - vb) > TOL * max(1, abs(vb)):
            ctx.fail(f"{label}: parameter value", new=a, old=b, got=va, want=vb, **w)
        ctx.ev("parameters_compared")
    if isinstance(old, C.GateOperation):
        _same_arity(ctx, new.gate, old.gate, label, **w)
        ma, mb = ref.subs_np(new.gate.matrix, env), ref.subs_np(old.gate.matrix, comp)
        if not np.all(np.isfinite(mb)):
            return False
        ctx.close(ma, mb, f"{label}: matrix of the bound operation", TOL * 10 * scale, op=old, **w)
        ctx.ev("matrices_compared")
    return True


def _same_arity(ctx, a, b, label, **w):
    ctx.check(a.num_qubits == b.num_qubits, f"{label}: number of qubits changed", new=a, old=b, **w)


def _check_free(ctx, obj, params, env, label, **w):
    got = list(obj.free_symbols)
    ctx.check(len(got) == len(set(got)), f"{label}: repeated free symbols", got=got, **w)
    want = set()
    for p in params:
        want |= _walk_symbols(p)
    ctx.check(set(got) == want, f"{label}: free symbols", got=got, want=want, **w)
    ctx.ev("free_symbol_reports")


def _check_circuit_free(ctx, circ, env, label, **w):
    all_params = [p for op in circ.operations for p in op.params]
    _check_free(ctx, circ, all_params, env, label, circuit=circ, **w)
    first = {}
    for i, op in enumerate(circ.operations):
        for p in op.params:
            for s in _walk_symbols(p):
                first.setdefault(s, i)
        _check_free(ctx, op, op.params, env, f"{label}: operation {i}", op=op, **w)
        if isinstance(op, C.GateOperation):
            _check_free(ctx, op.gate, op.gate.params, env, f"{label}: gate {i}", op=op, **w)
    order = [first[s] for s in circ.free_symbols]
    ctx.check(order == sorted(order), f"{label}: free symbols not in order of first appearance",
              got=circ.free_symbols, circuit=circ, **w)


def case_bind(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3])
    syms = gen.symbols(rng, rng.randint(1, 4), _keys(rng))
    extra = gen.symbols(rng, 2, ["w0", "w1", "q", "r", "omega"])
    circ = _circuit(ctx, rng, syms, n, rng.choice([0, 1, 2, 3, 5]))
    m, kind = _map(rng, syms, extra)
    before = (repr(circ), [op.params for op in circ.operations], dict(m))
    env = _env(rng, set(syms) | set(extra))
    comp = _composed(m, env)
    ctx.note(circ, m)
    w = dict(map=m, kind=kind, circuit=circ)
    _check_circuit_free(ctx, circ, env, "unbound", map=m)
    bound = circ.bind(m)
    ctx.check(type(bound) is C.Circuit and bound.n_qubits == circ.n_qubits, "width changed by bind", got=bound, **w)
    ctx.check(len(bound.operations) == len(circ.operations), "operations lost by bind", got=bound, **w)
    for i, (a, b) in enumerate(zip(bound.operations, circ.operations)):
        if not _check_op(ctx, a, b, m, env, comp, f"circuit.bind, operation {i}", **w):
            return
        if rng.random() < 0.3:
            _check_op(ctx, b.bind(m), b, m, env, comp, f"operation.bind {i}", **w)
            if isinstance(b, C.GateOperation):
                g = b.gate.bind(m)
                ma, mb = ref.subs_np(g.matrix, env), ref.subs_np(a.gate.matrix, env)
                ctx.close(ma, mb, "gate.bind against circuit.bind", 1e-7, op=b, **w)
    _check_circuit_free(ctx, bound, env, "bound", map=m, original=circ)
    # dependence on a symbol is reported
    allowed = set()
    for op in circ.operations:
        for p in op.params:
            for s in _walk_symbols(p):
                allowed |= _walk_symbols(m[s]) if s in m else {s}
    ctx.check(set(bound.free_symbols) <= allowed, "bound circuit has symbols from nowhere", got=bound.free_symbols, **w)
    if kind == "total":
        ctx.check(list(bound.free_symbols) == [], "free symbols left after a total binding", got=bound.free_symbols, **w)
    ctx.check((repr(circ), [op.params for op in circ.operations], dict(m)) == before, "bind changed its arguments", **w)
    # superfluous symbols are ignored
    m2 = {**m, sympy.Symbol("never_used"): 3.25, sympy.Symbol("nor_this"): sympy.Symbol("a")}
    ctx.check(bound == circ.bind(m2), "superfluous symbols changed the result", **w)
    ctx.check(bound == circ.bind(dict(reversed(list(m.items())))), "order of the map matters", **w)
    ctx.ev(f"bind_{kind}")
    if any(_walk_symbols(p) & set(m) for op in circ.operations for p in op.params):
        ctx.nontrivial(before[0], sorted(map(str, m.items())))
        ctx.sample(circ, "with", m)


def case_steps(ctx):
    """Binding in several partial steps equals binding once."""
    rng = ctx.rng
    n = rng.choice([1, 2, 2])
    syms = gen.symbols(rng, rng.randint(2, 5), _keys(rng))
    fresh = [sympy.Symbol(f"fresh_{i}") for i in range(3)]
    circ = _circuit(ctx, rng, syms, n, rng.choice([1, 2, 3]))
    m = {s: (_value(rng, fresh, True) if rng.random() < 0.4 else _value(rng, syms, False)) for s in syms}
    m = {s: v for s, v in m.items() if rng.random() < 0.85}
    once = circ.bind(m)
    keys = list(m)
    rng.shuffle(keys)
    staged = circ
    i = 0
    parts = []
    while i < len(keys):
        k = rng.randint(1, 2)
        part = {s: m[s] for s in keys[i:i + k]}
        parts.append(part)
        staged = staged.bind(part)
        i += k
        if rng.random() < 0.2:
            staged = staged.bind({})
    env = _env(rng, set(syms) | set(fresh))
    comp = _composed(m, env)
    w = dict(map=m, parts=parts, circuit=circ)
    for a, b, c in zip(staged.operations, once.operations, circ.operations):
        for pa, pb, pc in zip(a.params, b.params, c.params):
            va, vb, vc = (ref.eval_expr(x, e) for x, e in ((pa, env), (pb, env), (pc, comp)))
            if not np.isfinite(vc) or abs(vc) > 1e6:
                return
            if abs(va - vc) > TOL * max(1, abs(vc)) or abs(vb - vc) > TOL * max(1, abs(vc)):
                ctx.fail("staged binding differs", staged=pa, once=pb, original=pc, got=(va, vb), want=vc, **w)
            ctx.ev("parameters_compared")
        if isinstance(c, C.GateOperation):
            mb = ref.subs_np(c.gate.matrix, comp)
            if np.all(np.isfinite(mb)):
                scale = max([1.0] + [_mag(comp, p) for p in c.params])
                ctx.close(ref.subs_np(a.gate.matrix, env), mb, "matrix after staged binding", 1e-7 * scale, op=c, **w)
    _check_circuit_free(ctx, staged, env, "staged", **{k: w[k] for k in ("map", "parts")})
    ctx.ev("staged_bindings")
    if len(parts) > 1:
        ctx.nontrivial(repr(circ), [sorted(map(str, p.items())) for p in parts])
        ctx.sample(circ, "in steps", parts)


def case_unitary(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2])
    syms = gen.symbols(rng, rng.randint(1, 3), _keys(rng))
    circ = _circuit(ctx, rng, syms, n, rng.choice([1, 2, 2]), nongate=False, depth=1)
    m = {s: _value(rng, syms, False) for s in syms}
    comp = _composed(m, {})
    scale = max([1.0] + [_mag(comp, p) for op in circ.operations for p in op.params])
    if scale > 1e5:
        return
    sym = ref.subs_np(circ.to_unitary(), comp)
    if not np.all(np.isfinite(sym)):
        return
    got = ref.to_np(circ.bind(m).to_unitary())
    ctx.close(got, sym, "bind then to_unitary against to_unitary then substitute", 1e-7 * scale, circuit=circ, map=m)
    want = ref.circuit_matrix([(ref.subs_np(op.gate.matrix, comp), op.qubit_indices) for op in circ.operations], n)
    ctx.close(got, want, "bind then to_unitary against own product", 1e-7 * scale, circuit=circ, map=m)
    # partially bound, symbolic matrix
    some = {s: m[s] for s in syms if rng.random() < 0.5}
    part = circ.bind(some)
    ctx.close(ref.subs_np(part.to_unitary(), comp), want, "partial bind", 1e-7 * scale, circuit=circ, map=some)
    ctx.ev("circuit_matrices", 3)
    if circ.free_symbols:
        ctx.nontrivial(repr(circ), sorted(map(str, m.items())))
        ctx.sample(circ, m)


def case_refusal(ctx):
    rng = ctx.rng
    s = sympy.Symbol("a")
    m = rng.choice([{s: 0.5}, {s: sympy.Symbol("b")}, {sympy.Symbol("zz"): 1}])
    name = rng.choice(sorted(ref.BUILTINS))
    g = gen.make_builtin(rng, name, lambda: gen.typed_number(rng))
    for _ in range(rng.randint(0, 1)):
        g = rng.choice([lambda g: g.dagger, lambda g: g.controlled(1)])(g)
    r = rng.random()
    inner = type(C.X.power(2))(g, rng.choice([2, 0.5, -1, 3])) if r < 0.5 else C.Exponential(g)
    ctx.raises(NotImplementedError, lambda: inner.bind(m), "bind of a power/exponential", gate=inner, map=m)
    ctx.raises(NotImplementedError, lambda: inner(*range(inner.num_qubits)).bind(m), "bind of its operation", gate=inner)
    circ = C.Circuit([C.RX(s)(0), inner(*range(inner.num_qubits))])
    ctx.raises(NotImplementedError, lambda: circ.bind(m), "bind of a circuit with it", circuit=circ)
    outer = inner
    for _ in range(rng.randint(1, 2)):
        outer = rng.choice([lambda g: C.Dagger(g), lambda g: C.ControlledGate(g, 1), lambda g: g.dagger,
                            lambda g: g.controlled(2), lambda g: C.Exponential(g)])(outer)
    ctx.raises(NotImplementedError, lambda: outer.bind(m), "bind of a wrapped power/exponential", gate=outer, map=m)
    # nor may a symbolic gate be put under them silently wrong
    sym = C.RX(s)
    for mk in (lambda: sym.power(2), lambda: sym.exp):
        try:
            wrapped = mk()
        except ValueError:
            ctx.ev("refusals_observed")
            continue
        ctx.raises(NotImplementedError, lambda: wrapped.bind({s: 0.5}), "bind of a symbolic power/exponential")
    ctx.nontrivial(str(outer), sorted(map(str, m.items())))
    ctx.ev("refusals")


def case_replace(ctx):
    """replace_params on every kind, and binding through it."""
    rng = ctx.rng
    syms = gen.symbols(rng, 3, _keys(rng))
    n = rng.choice([1, 2, 3])
    g = _gate(ctx, rng, syms, n)
    new = tuple(_param(rng, syms, 0.4) for _ in g.params)
    h = g.replace_params(new)
    ctx.check(tuple(h.params) == new, "replace_params did not set the params", gate=g, new=new, got=h.params)
    _same_arity(ctx, h, g, "replace_params")
    env = _env(rng, syms)
    op = g(*range(g.num_qubits)).replace_params(new)
    ctx.check(tuple(op.params) == new and tuple(op.qubit_indices) == tuple(range(g.num_qubits)), "operation.replace_params",
              op=op, new=new)
    if all(abs(ref.eval_expr(p, env)) < 1e5 for p in new):
        m = {s: env[s] for s in syms}
        a, b = ref.to_np(h.bind(m).matrix), ref.subs_np(h.matrix, env)
        if np.all(np.isfinite(b)):
            scale = max([1.0] + [_mag(env, p) for p in new])
            ctx.close(a, b, "replace, bind and evaluate", 1e-7 * scale, gate=h, map=m)
    mp = C.MultiPhaseOperation(tuple(_param(rng, syms, 0.3) for _ in range(2**n)))
    newp = tuple(_param(rng, syms, 0.3) for _ in range(2**n))
    ctx.check(tuple(mp.replace_params(newp).params) == newp, "MultiPhaseOperation.replace_params", new=newp)
    total = {s: rng.uniform(-3, 3) for s in syms}
    comp = _composed(total, {})
    if all(np.isfinite(v := ref.eval_expr(p, comp)) and abs(v.imag) < 1e-12 and abs(v) < 1e4 for p in mp.params):
        psi = gen.state(ctx, n)
        want = np.exp(1j * np.array([ref.eval_expr(p, comp).real for p in mp.params])) * psi
        ctx.close(mp.bind(total).apply(psi), want, "bound phases applied", 1e-7, op=mp, map=total)
        ctx.ev("phases_applied")
    ctx.nontrivial(str(g), new)
    ctx.ev("replacements")


def case_long(ctx):
    """Long circuits over many symbols, which come back long after they were first used."""
    rng = ctx.rng
    n = rng.choice([2, 3, 5, 8, 12])
    count = rng.choice([6, 8, 12, 17, 24, 40])
    r = rng.random()
    if r < 0.25:
        names = [f"{b}[{i}]" for i in range(count // 2) for b in ("theta", "x")] + gen.ODD_NAMES + FUNCTION_NAMES
        rng.shuffle(names)
        syms = [sympy.Symbol(v) for v in dict.fromkeys(names)][:count]
    elif r < 0.5:
        syms = [sympy.Symbol(f"{b}{i}") for i in range((count + 1) // 2) for b in ("theta_", "x")][:count]
        rng.shuffle(syms)
    else:
        syms = [sympy.Symbol(f"{rng.choice('abxyzt')}_{i}") for i in range(count)]
        rng.shuffle(syms)

    def param():
        r = rng.random()
        if r < 0.15:
            return gen.typed_number(rng)
        s, t = rng.choice(syms), rng.choice(syms)
        if bystanders and r < 0.3:
            return rng.choice([s + rng.choice(bystanders), rng.choice(bystanders) * s, rng.choice(bystanders)])
        if r < 0.6:
            return s
        return rng.choice([s + t, s - 2 * t, 0.5 * s, s * t, -s, sympy.cos(s) + t, s / 2 + sympy.pi])

    bystanders = [sympy.Symbol(v) for v in rng.sample(FUNCTION_NAMES + gen.ODD_NAMES, 3)] if rng.random() < 0.5 else []
    bystanders = [b for b in bystanders if b not in syms]
    spare = [sympy.Symbol(f"unused_{i}") for i in range(rng.choice([0, 0, 3, 20, 30, 60, 100]))]

    ops, pool = [], []
    for _ in range(rng.choice([8, 15, 30, 60, 120])):
        r = rng.random()
        if pool and r < 0.25:
            op = rng.choice(pool)
            if isinstance(op, C.GateOperation) and rng.random() < 0.5:
                op = op.gate(*gen.qubit_tuple(rng, op.gate.num_qubits, n))
        elif n <= 3 and r < 0.3:
            op = C.MultiPhaseOperation(tuple(param() for _ in range(2**n)))
        else:
            name = rng.choice(["RX", "RY", "RZ", "PHASE", "RH", "U3", "CPHASE", "XX", "ZZ", "XY", "H", "CNOT"])
            name = name if ref.BUILTINS[name][1] <= n else "RX"
            g = gen.make_builtin(rng, name, param)
            if rng.random() < 0.2:
                g = g.dagger
            if rng.random() < 0.2 and g.num_qubits < n:
                g = g.controlled(1)
            op = g(*gen.qubit_tuple(rng, g.num_qubits, n))
        pool.append(op)
        ops.append(op)
    circ = C.Circuit(ops, n_qubits=n)
    env = _env(rng, syms + bystanders)
    _check_circuit_free(ctx, circ, env, "long circuit")
    used = [s for s in circ.free_symbols if s not in bystanders]
    kept = set(circ.free_symbols) & set(bystanders)
    order = list(used)
    rng.shuffle(order)
    cut = sorted(rng.sample(range(len(order) + 1), min(2, len(order) + 1)))
    pieces = [order[: cut[0]], order[cut[0] : cut[-1]], order[cut[-1] :]]
    step, total = circ, {}
    for piece in pieces:
        m = {s: _value(rng, syms, False) for s in piece + rng.sample(spare, rng.randint(0, len(spare)))}
        items = list(m.items())
        rng.shuffle(items)
        m = dict(items)
        total.update({s: m[s] for s in piece})
        step = step.bind(m)
        _check_circuit_free(ctx, step, env, "long circuit, bound in steps", map=m)
        ctx.check(set(step.free_symbols) == (set(used) - set(total)) | kept, "symbols left", got=step.free_symbols, map=total)
    once = circ.bind({**{s: 0.25 for s in spare}, **total})
    ctx.check(set(once.free_symbols) == kept, "free symbols left after a total binding", got=once.free_symbols, want=kept)
    comp = _composed(total, env)
    ctx.check(len(step.operations) == len(once.operations) == len(ops), "operations lost by bind", circuit=circ)
    for i, (a, b, old) in enumerate(zip(step.operations, once.operations, ops)):
        ctx.check(tuple(a.qubit_indices) == tuple(b.qubit_indices) == tuple(old.qubit_indices), "qubits changed", op=old, got=b)
        for x, y, p in zip(a.params, b.params, old.params):
            want = ref.eval_expr(p, comp)
            for v in (x, y):
                if abs(ref.eval_expr(v, env) - want) > TOL * max(1, abs(want)):
                    ctx.fail("value of a bound parameter", op=old, param=p, got=v, want=want, index=i)
            ctx.ev("parameters_compared")
    for i in rng.sample(range(len(ops)), min(4, len(ops))):
        if isinstance(ops[i], C.GateOperation):
            want = ref.subs_np(ops[i].gate.matrix, comp)
            got = once.operations[i].gate.matrix
            got = ref.subs_np(got, env) if kept else ref.to_np(got)
            ctx.close(got, want, "matrix after binding", 1e-6, op=ops[i], map=total)
            ctx.ev("matrices_compared")
    ctx.nontrivial(len(ops), str(circ)[:2000])
    ctx.ev("long_circuits")


WORKLOADS = [
    dict(name="long", case=case_long, quick=120, thorough=2500, hang="inconclusive", cpu_limit=30.0),
    dict(name="refusal", case=case_refusal, quick=150, thorough=1000, hang="inconclusive"),
    dict(name="bind", case=case_bind, quick=900, thorough=12000, hang="inconclusive", cpu_limit=20.0),
    dict(name="steps", case=case_steps, quick=500, thorough=7000, hang="inconclusive", cpu_limit=20.0),
    dict(name="unitary", case=case_unitary, quick=250, thorough=3000, hang="inconclusive", cpu_limit=20.0),
    dict(name="replace", case=case_replace, quick=300, thorough=4000, hang="inconclusive", cpu_limit=20.0),
]
REQUIRED_EVENTS = ("parameters_compared", "matrices_compared", "free_symbol_reports", "staged_bindings",
                   "circuit_matrices", "refusals", "bind_permutation", "bind_symbolic", "phases_applied",
                   "long_circuits")
