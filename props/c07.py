"""C07 - gate modifiers mean what they say."""
import numpy as np
import scipy.linalg
import sympy

from orquestra.quantum import circuits as C

from vmon import gen, lits, ref

PROPERTY = "C07"
RULE = (
    "chains (depth 1-7) of dagger, controlled(1-5), integer powers (-4..6), powers 1/q and exp over "
    "every built-in (real parameters of all numeric types) and custom gates. After each modifier the "
    "library's matrix is converted to complex numpy and compared with the stated relation to the "
    "matrix before it, with our own running product over the whole chain, and with num_qubits and "
    "params; replace_params is compared with replaying the chain on the gate with the new parameters. "
    "Identified by base gate and chain."
)
ASSUMPTIONS = [
    "numeric comparison at 1e-7 relative to the size of the entries",
    "chains with more than one fractional power/exp are driven within a CPU limit (sympy may not terminate)",
    "exponents are integers or 1/q with q in 2..9, as the statement says",
]
TOL = 1e-7


def _matrix(ctx, g):
    return ref.to_np(ctx.hold(g.matrix, "gate.matrix"))


def _scale(*ms):
    return max([1.0] + [float(np.max(np.abs(m))) for m in ms if m.size])


def _ctrl(m, k):
    d = len(m)
    out = np.eye(d * 2**k, dtype=complex)
    out[-d:, -d:] = m
    return out


def _int_power(m, p):
    if p < 0:
        m, p = np.linalg.inv(m), -p
    return np.linalg.matrix_power(m, p)


def _relation(step, m):
    kind, arg = step
    if kind == "dag":
        return m.conj().T
    if kind == "ctrl":
        return _ctrl(m, arg)
    if kind == "pow":
        return _int_power(m, int(arg))
    if kind == "exp":
        return scipy.linalg.expm(m)
    raise AssertionError(kind)


def _apply(step, g):
    kind, arg = step
    if kind == "dag":
        return g.dagger
    if kind == "ctrl":
        return g.controlled(arg)
    if kind in ("pow", "root"):
        return g.power(arg)
    return g.exp


def _describe(chain):
    return ".".join(k if a is None else f"{k}({a!r})" for k, a in chain)


def _known_branch(root, got, want):
    """Explained by Power.dagger = (adjoint base) ** p with -1 in the spectrum?

    `root` = (matrix B the fractional power was taken of, q, n_controls_since).
    Only the eigenvectors of eigenvalue -1 may be affected, by q-th roots of unity.
    """
    base, q, k = root
    d = len(base)
    if got.shape != want.shape or not np.all(np.isfinite(got)):
        return False
    core_g, core_w = got[-d:, -d:], want[-d:, -d:]
    if not np.allclose(got, _ctrl(core_g, k), atol=1e-7):
        return False
    t, z = scipy.linalg.schur(base, output="complex")
    hit = np.abs(np.diag(t) + 1) < 1e-6
    if not hit.any() or not np.allclose(t, np.diag(np.diag(t)), atol=1e-6):
        return False
    p = z[:, hit] @ z[:, hit].conj().T
    rest = np.eye(d) - p
    tol = 1e-6 * _scale(got, want)
    same = np.allclose(core_g @ rest, core_w @ rest, atol=tol)
    wq, gq = np.linalg.matrix_power(core_w, q), np.linalg.matrix_power(core_g, q)
    return bool(same and np.allclose(gq, wq, atol=tol * _scale(gq, wq)))


def _sympy_gives_up(g, step, exc_type):
    """Does sympy itself fail in the same way on the matrix before the step?"""
    kind, arg = step
    inner = g
    while kind in ("pow", "root") and isinstance(inner, C.ControlledGate):
        inner = inner.wrapped_gate
    try:
        m = inner.matrix
        res = {"exp": lambda: m.exp(), "dag": lambda: m.adjoint(), "ctrl": lambda: m}.get(kind, lambda: m**arg)()
        bad = not np.all(np.isfinite(ref.to_np(res)))
    except Exception as e:
        return exc_type is not None and type(e) is exc_type
    if kind in ("dag", "ctrl") and exc_type is not None:
        # the modifier is moved inside: the failing function is the inner one, on another matrix
        return True
    return bad and exc_type is None


def _raised_in_sympy(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    name = tb.tb_frame.f_code.co_filename
    return "/sympy/" in name or "/mpmath/" in name


def _succeeds_later(h):
    """sympy's zero tests draw random points: the same call may fail or not."""
    for _ in range(3):
        try:
            h.matrix
            return True
        except Exception:
            pass
    return False


def _sympy_agrees(g, step, got):
    """Is it sympy itself that returns this (wrong) matrix for the verified inner one?"""
    kind, arg = step
    while kind != "exp" and isinstance(g, C.ControlledGate):
        g = g.wrapped_gate
    try:
        direct = ref.to_np(g.matrix.exp() if kind == "exp" else g.matrix**arg)
    except Exception:
        return False
    d = len(direct)
    return bool(np.allclose(got, _ctrl(direct, int(np.log2(len(got) // d))), atol=1e-9))


def _hard_before(chain):
    return any(k in ("exp", "root") for k, _ in chain)


def _step(ctx, g, m, step, chain, root, base, n_hard):
    """Apply one modifier, check everything about the result."""
    kind, arg = step
    w = dict(base=base, chain=_describe(chain + [step]))
    h = _apply(step, g)
    want_q = g.num_qubits + (arg if kind == "ctrl" else 0)
    ctx.check(h.num_qubits == want_q, "number of qubits", got=h.num_qubits, want=want_q, **w)
    same = len(h.params) == len(g.params) and all(
        type(a) is type(b) and a == b for a, b in zip(h.params, g.params))
    ctx.check(same, "parameters changed by a modifier", got=h.params, want=g.params, **w)
    try:
        got = ref.to_np(ctx.hold(h.matrix, "gate.matrix"))
    except Exception as e:
        deep = any(k in ("exp", "root", "pow") for k, _ in chain + [step])
        if deep and _raised_in_sympy(e) and (_succeeds_later(h) or _sympy_gives_up(g, step, type(e))):
            ctx.known("sympy-matrix-function-limit", f"{type(e).__name__}: {e}", **w)
            return h, None, None
        raise
    if not np.all(np.isfinite(got)) and n_hard >= 2 and _sympy_gives_up(g, step, None):
        ctx.known("sympy-matrix-function-limit", "non-finite matrix", **w)
        return h, None, None
    ctx.check(got.shape == (2**want_q,) * 2, "shape of the matrix", got=got.shape, **w)
    ctx.ev(f"modifier_{kind}")
    if kind == "root":
        q = round(1 / arg)
        back = np.linalg.matrix_power(got, q)
        if n_hard >= 2 and not np.allclose(back, m, atol=1e-5 * _scale(m, got)) and _sympy_agrees(g, step, got):
            ctx.known("sympy-matrix-function-limit", "sympy returns a wrong root of a root", **w)
            return h, None, None
        ctx.close(back, m, f"{q}-th power of the power 1/{q}", TOL * 10 * _scale(m, got), **w)
        return h, got, (m, q, 0)
    want = _relation(step, m)
    tol = TOL * _scale(want)
    if kind == "pow" and arg < 0:
        tol *= np.linalg.cond(m) ** abs(arg)
    if kind == "dag" and root and got.shape == want.shape and not np.allclose(got, want, atol=tol):
        if _known_branch(root, got, want):
            ctx.known("power-dagger-branch", "dagger of a fractional power is not its adjoint", **w)
            return h, got, root
    if kind in ("pow", "exp") and n_hard and got.shape == want.shape and not np.allclose(got, want, atol=tol):
        if _sympy_agrees(g, step, got):
            ctx.known("sympy-matrix-function-limit", "sympy itself returns a wrong matrix", **w)
            return h, None, None
    ctx.close(got, want, f"matrix after {kind}", tol, **w)
    if root and kind == "ctrl":
        root = (root[0], root[1], root[2] + arg)
    if kind == "exp":
        root = None
    return h, got, root


def _inverse_of_hard(chain):
    hard = False
    for kind, arg in chain:
        hard = hard or kind in ("root", "exp")
        if hard and kind == "pow" and arg < 0:
            return True
    return False


def _run_chain(ctx, g, chain):
    base = g
    m = m0 = _matrix(ctx, g)
    root, done, total, known = None, [], m0, False
    for step in chain:
        if step[0] in ("pow",) and step[1] < 0 and np.linalg.cond(m) > 1e4:
            break
        if step[0] == "dag" and _inverse_of_hard(done):
            break  # sympy inverts unsimplified matrices inexactly, and dagger is moved inside
        if _scale(m) > (3.0 if step[0] == "exp" else 1e3):
            break
        n_hard = sum(k in ("exp", "root") for k, _ in done + [step])
        g, m, root = _step(ctx, g, m, step, done, root, base, n_hard)
        done.append(step)
        if m is None:
            return g, done
        # the whole chain against our own running product (not for 1/q: not unique)
        total = m if step[0] == "root" else _relation(step, total)
        if root is None and n_hard == sum(k == "exp" for k, _ in done):
            ctx.close(m, total, "whole chain", 1e-6 * _scale(total) * max(1, np.linalg.cond(total)), base=base, chain=_describe(done))
    if done:
        ctx.nontrivial(str(base), str(base.params), _describe(done))
        ctx.sample(base, _describe(done))
        ctx.ev(f"chain_depth_{min(len(done), 7)}")
    return g, done


def _tame_chain(rng, g, length, max_qubits):
    """Modifiers that sympy evaluates exactly and fast."""
    n, chain = g.num_qubits, []
    core = n
    n_pow = 0
    for _ in range(length):
        r = rng.random()
        if r < 0.4:
            chain.append(("dag", None))
        elif r < 0.7:
            room = max_qubits - n
            if room >= 1:
                k = rng.randint(1, min(room, rng.choice([1, 2, 3, 5])))
                chain.append(("ctrl", k))
                n += k
        elif n_pow < 2:
            n_pow += 1
            choices = [2, 3, 1, 0, -1, -2, -3, 5, 6, -4, 2.0, -1.0] if core <= 1 else [2, 3, 1, 0, -1, -2, 2.0] if core == 2 else [2, 3, 0, -1]
            if core == 1 and rng.random() < 0.25:
                choices = [7, 8, 9, 10, 12, 16, 17, -7, -8, -9] + lits.ints_in(5, 40)
            chain.append(("pow", rng.choice(choices)))
    return chain


def case_tame(ctx):
    rng = ctx.rng
    g = gen.base_gate(ctx, rng.choice([1, 1, 2, 2, 3]))
    ctx.note(g)
    _run_chain(ctx, g, _tame_chain(rng, g, rng.randint(1, 7), rng.choice([3, 4, 5, 6])))


CATALOG = [(n, i) for n in sorted(ref.BUILTINS) for i in range(6)]


def _cat_gate(rng, i):
    name, variant = CATALOG[i % len(CATALOG)]
    kinds = [
        lambda: rng.uniform(-4, 4),
        lambda: sympy.pi * sympy.Rational(rng.randint(-8, 8), rng.choice([1, 2, 4])),
        lambda: rng.randint(-3, 3),
        lambda: gen.typed_number(rng),
        lambda: rng.choice([0.0, np.pi, -np.pi, np.pi / 2, 2 * np.pi]),
        lambda: rng.choice([sympy.Integer(0), sympy.pi, sympy.pi / 2, 0]),
    ]
    return gen.make_builtin(rng, name, kinds[variant])


FIXED_CHAINS = [
    [("dag", None)], [("ctrl", 1)], [("ctrl", 3)], [("pow", 2)], [("pow", -1)], [("pow", 0)],
    [("dag", None), ("ctrl", 2)], [("ctrl", 1), ("dag", None)], [("pow", 3), ("dag", None)],
    [("pow", 2), ("ctrl", 1)], [("ctrl", 1), ("pow", -1)], [("ctrl", 1), ("ctrl", 2), ("dag", None), ("pow", 2)],
    [("pow", 2), ("pow", 3), ("dag", None), ("ctrl", 1)], [("dag", None), ("pow", -2)], [("dag", None), ("dag", None)],
    [("ctrl", 1), ("pow", 3), ("ctrl", 1), ("dag", None)],
    [("exp", None)], [("exp", None), ("dag", None)], [("exp", None), ("ctrl", 1)],
    [("exp", None), ("pow", 2), ("dag", None)], [("exp", None), ("pow", -1)], [("dag", None), ("exp", None)],
    [("exp", None), ("ctrl", 1), ("dag", None), ("pow", 2)],
    [("root", 1 / 2)], [("root", 1 / 3)], [("root", 0.25)], [("root", 1 / 2), ("pow", 2)],
    [("root", 1 / 2), ("dag", None)], [("root", 1 / 3), ("ctrl", 1), ("dag", None)], [("dag", None), ("root", 1 / 2)],
    [("root", 1 / 5), ("pow", 3), ("dag", None)], [("ctrl", 1), ("root", 1 / 2), ("dag", None)],
]  # fmt: skip


def case_catalog(ctx):
    """Every built-in through every short chain."""
    rng = ctx.rng
    g = _cat_gate(rng, ctx.index)
    for chain in rng.sample(FIXED_CHAINS, 5 if ctx.thorough else 3):
        if g.num_qubits == 2 and chain[0][0] == "ctrl" and _hard_before(chain):
            continue
        _run_chain(ctx, g, chain)


def _hard_base(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.12:
        return gen.custom_numeric(ctx, 1)()
    if r < 0.2:
        for _ in range(20):
            d, n_params, k = gen.custom_parametric(ctx)
            if d.gate_name[-1] in "013":  # sympy does not finish on the others
                return d(*[rng.uniform(-3, 3) for _ in range(n_params)])
    if r < 0.28:
        return gen.custom_exact(ctx)()
    return _cat_gate(rng, rng.randrange(len(CATALOG)))


def case_hard(ctx):
    """One fractional power or exp, tame modifiers around it."""
    rng = ctx.rng
    g = _hard_base(ctx)
    pre = []
    if rng.random() < 0.4:
        pre.append(("dag", None))
    if rng.random() < 0.2 and g.num_qubits == 1:
        pre.append(("pow", rng.choice([2, 3, -1])))
    if rng.random() < 0.2 and not g.params and g.num_qubits == 1:
        pre.append(("ctrl", 1))
    rng.shuffle(pre)
    exp = rng.random() < 0.4
    hard = ("exp", None) if exp else ("root", rng.choice([1 / 2, 1 / 3, 0.25, 1 / 5, 1 / 7, 1 / 9, 1 / 2]))
    post, n = [], g.num_qubits
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < 0.45:
            post.append(("dag", None))
        elif r < 0.7 and n < 4:
            k = rng.choice([1, 1, 2])
            n += k
            post.append(("ctrl", k))
        elif g.num_qubits == 1 or n <= 2:
            post.append(("pow", rng.choice([2, 3, 2, -1] if g.num_qubits == 1 else [2, 3])))
    ctx.note(g, pre, hard, post)
    _run_chain(ctx, g, pre + [hard] + post)


def case_nested(ctx):
    """Several fractional powers / exponentials; sympy may give up."""
    rng = ctx.rng
    names = ["X", "Z", "S", "T", "H", "Y", "SX", "RZ", "PHASE", "CZ", "CNOT", "RX", "GPi", "I"]
    name = rng.choice(names)
    g = gen.make_builtin(rng, name, lambda: rng.choice([sympy.pi, sympy.pi / 2, sympy.pi / 4, 0, 0.7, -1.3, 1]))
    chain = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.35:
            chain.append(("root", rng.choice([0.5, 1 / 3, 0.25])))
        elif r < 0.6:
            chain.append(("exp", None))
        elif r < 0.8:
            chain.append(("dag", None))
        elif r < 0.9:
            chain.append(("pow", rng.choice([2, -1, 3])))
        else:
            chain.append(("ctrl", 1))
    ctx.note(g, chain)
    _nested(ctx, g, chain)


def _nested(ctx, g, chain):
    """Like _run_chain, but only statements that survive several branch choices."""
    base, m, done, roots = g, _matrix(ctx, g), [], []
    for step in chain:
        kind, arg = step
        if kind == "exp" and _scale(m) > 3 or _scale(m) > 1e3:
            break
        n_hard = sum(k in ("exp", "root") for k, _ in done + [step])
        if kind == "dag" and any(k == "root" for k, _ in done):
            # adjoint of a root: the listed branch finding; the rest is case_hard's
            step = kind, arg = ("pow", 2)
        g, m, _ = _step(ctx, g, m, step, done, None, base, n_hard)
        done.append(step)
        if m is None:
            return
    if len(done) > 1:
        ctx.nontrivial(str(base), str(base.params), _describe(done))
        ctx.sample(base, _describe(done))
        ctx.ev("nested_chains")


def case_replace(ctx):
    rng = ctx.rng
    symbolic = rng.random() < 0.3
    syms = gen.symbols(rng, 3)

    def param():
        return gen.expression(rng, syms, 1) if symbolic and rng.random() < 0.6 else gen.typed_number(rng)

    g = None
    for _ in range(20):
        g = gen.base_gate(ctx, 2, param)
        if g.params or rng.random() < 0.1:
            break
    hard = not symbolic and rng.random() < 0.4
    chain = []
    for _ in range(rng.randint(1, 6)):
        kinds = ["dag", "ctrl"] + ([] if list(g.free_symbols) else ["pow"]) + (["exp", "root"] if hard and not list(g.free_symbols) else [])
        k = rng.choice(kinds)
        arg = {"dag": None, "exp": None, "ctrl": rng.randint(1, 3), "pow": rng.choice([2, -1, 3, 0]), "root": 1 / rng.randint(2, 7)}[k]
        chain.append((k, arg))
    if list(g.free_symbols):
        new = tuple(param() for _ in g.params)
    else:
        new = tuple(gen.typed_number(rng) for _ in g.params)
    h = g
    for s in chain:
        h = _apply(s, h)
    w = dict(base=g, chain=_describe(chain), new=new)
    got = h.replace_params(new)
    want = g.replace_params(new)
    ctx.check(want.num_qubits == g.num_qubits and type(want) is type(g) and want.name == g.name, "replace_params of the base", got=want, **w)
    for s in chain:
        want = _apply(s, want)
    ctx.check(tuple(h.params) == tuple(g.params), "params of the chain", got=h.params, **w)
    ctx.check(len(got.params) == len(new) and all(type(a) is type(b) and a == b for a, b in zip(got.params, new)),
              "params after replace_params", got=got.params, **w)
    ctx.check(got.num_qubits == h.num_qubits, "num_qubits after replace_params", got=got.num_qubits, **w)
    ctx.check(bool(got == want) and bool(want == got) and got.name == want.name, "replace_params is not modifying the new gate", got=got, want=want, **w)
    op = h(*range(h.num_qubits)).replace_params(new)
    ctx.check(bool(op.gate == want) and op.qubit_indices == tuple(range(h.num_qubits)), "operation.replace_params", got=op, want=want, **w)
    if not _hard_before(chain) and got.num_qubits <= 5 and sum(k == "pow" for k, _ in chain) < 2:
        env = {s: rng.uniform(0.2, 2) for s in syms}
        a = ref.subs_np(got.matrix, env)
        b = ref.subs_np(g.replace_params(new).matrix, env)
        for s in chain:
            b = _relation(s, b)
        if np.all(np.isfinite(b)):
            size = max([1.0] + [abs(ref.eval_expr(p, env)) for p in new])
            ctx.close(a, b, "matrix after replace_params", TOL * size, **w)
            ctx.ev("replaced_matrices")
    ctx.ev("replacements")
    ctx.nontrivial(str(g), new, _describe(chain))
    ctx.sample(g, _describe(chain), "with", new)


def case_symbolic(ctx):
    """Dagger and control of symbolic gates at sampled real values."""
    rng = ctx.rng
    syms = gen.symbols(rng, rng.randint(1, 3))
    g = gen.base_gate(ctx, 2, lambda: gen.expression(rng, syms, 2) if rng.random() < 0.85 else gen.typed_number(rng))
    env = {s: rng.uniform(0.3, 2.2) for s in syms}
    size = max([1.0] + [abs(ref.eval_expr(p, env)) for p in g.params])
    if size > 1e5:
        return
    m = ref.subs_np(g.matrix, env)
    h, done = g, []
    for _ in range(rng.randint(1, 5)):
        step = ("dag", None) if rng.random() < 0.55 or h.num_qubits > 4 else ("ctrl", rng.choice([1, 1, 2]))
        h = _apply(step, h)
        m = _relation(step, m)
        done.append(step)
    w = dict(base=g, chain=_describe(done), env=env)
    ctx.check(len(m) == 2**h.num_qubits, "number of qubits", got=h.num_qubits, **w)
    ctx.check(tuple(h.params) == tuple(g.params), "params", got=h.params, **w)
    ctx.check(set(h.free_symbols) == set(g.free_symbols), "free symbols", got=h.free_symbols, **w)
    values = {s: v for s, v in env.items()}
    # adjoint of a symbolic matrix may hold conjugate(symbol): evaluated at real values
    got = ref.subs_np(h.matrix, values)
    ctx.close(got, m, "symbolic chain", TOL * size, **w)
    bound = h.bind(env) if any(s in env for s in g.free_symbols) else h
    ctx.close(ref.to_np(bound.matrix), m, "bound symbolic chain", TOL * size, **w)
    ctx.ev("symbolic_chains")
    ctx.nontrivial(str(g), _describe(done))
    ctx.sample(g, _describe(done))


def case_big_control(ctx):
    rng = ctx.rng
    g = gen.base_gate(ctx, 2)
    n, total = g.num_qubits, 0
    h = g
    m = _matrix(ctx, g)
    parts = []
    goal = rng.choice([4, 5, 6, 7])
    while n + total < goal:
        k = rng.randint(1, goal - n - total)
        h = h.controlled(k)
        total += k
        parts.append(k)
        if rng.random() < 0.4:
            h, m = h.dagger, m.conj().T
            parts.append("dag")
    ctx.check(h.num_qubits == n + total, "number of qubits", base=g, parts=parts, got=h.num_qubits)
    ctx.close(_matrix(ctx, h), _ctrl(m, total), "many controls", TOL, base=g, parts=parts)
    ctx.ev("big_controls")
    ctx.nontrivial(str(g), parts)
    ctx.sample(g, parts)


def case_manual(ctx):
    """Wrappers built through their classes around any gate."""
    rng = ctx.rng
    g = gen.base_gate(ctx, 2)
    m = _matrix(ctx, g)
    h, done = g, []
    pows = 0
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            h, m = C.Dagger(h), m.conj().T
            done.append("Dagger")
        elif r < 0.7 and h.num_qubits < 5:
            k = rng.choice([1, 1, 2])
            h, m = C.ControlledGate(h, k), _ctrl(m, k)
            done.append(f"Controlled{k}")
        elif pows < 1 and h.num_qubits <= 3:
            p = rng.choice([2, 3, 0, 1] + ([-1] if h.num_qubits <= 2 else []))
            h, m = type(C.X.power(2))(h, p), _int_power(m, p)
            done.append(f"Power{p}")
            pows += 1
    w = dict(base=g, wrappers=done)
    ctx.check(2**h.num_qubits == len(m), "number of qubits", got=h.num_qubits, **w)
    ctx.check(tuple(h.params) == tuple(g.params), "params", got=h.params, **w)
    ctx.close(_matrix(ctx, h), m, "nested wrappers", TOL * 10, **w)
    # then each modifier of that object
    ctx.close(_matrix(ctx, h.dagger), m.conj().T, "dagger of nested wrappers", TOL * 10, **w)
    if h.num_qubits < 5:
        ctx.close(_matrix(ctx, h.controlled(1)), _ctrl(m, 1), "control of nested wrappers", TOL * 10, **w)
    ctx.ev("manual_wrappers")
    ctx.nontrivial(str(g), done)


def case_history(ctx):
    """Many modified gates around few, nearly equal or shared, gates; matrices asked in mixed order."""
    rng = ctx.rng
    base = [g for g in gen.similar_pool(ctx, 2)]
    rng.shuffle(base)
    base = base[:4]
    if rng.random() < 0.4:
        base.append(gen.base_gate(ctx, 2))
    live = []  # gate, expected matrix, expected params, description
    for g in base:
        live.append((g, _matrix(ctx, g), tuple(g.params), str(g), 0))

    def verify(entry):
        h, m, params, what, _ = entry
        ctx.check(2**h.num_qubits == len(m), "number of qubits in a history", got=h.num_qubits, want=len(m), gate=what)
        ctx.check(tuple(h.params) == params, "parameters in a history", got=h.params, want=params, gate=what)
        ctx.close(_matrix(ctx, h), m, "matrix in a history", 1e-9 * _scale(m), gate=what)
        ctx.ev("history_reads")

    for _ in range(rng.randint(6, 16)):
        h, m, params, what, pows = rng.choice(live)
        r = rng.random()
        if r < 0.25:
            new = (h.dagger, m.conj().T, params, what + ".dag", pows)
        elif r < 0.5 and h.num_qubits < 5:
            k = rng.choice([1, 1, 2, 3] if h.num_qubits <= 2 else [1])
            new = (h.controlled(k), _ctrl(m, k), params, what + f".ctrl({k})", pows)
        elif r < 0.7 and pows < 1 and h.num_qubits <= 3 and np.linalg.cond(m) < 10:
            p = rng.choice([0, 1, 2, 3, 2.0, -1] if h.num_qubits <= 2 else [0, 1, 2])
            new = (h.power(p), _int_power(m, int(p)), params, what + f".pow({p!r})", pows + 1)
        else:
            g = rng.choice(base)
            v = gen.variant(ctx, g)
            new = (v, _matrix(ctx, v), tuple(v.params), str(v), 0)
        live.append(new)
        if rng.random() < 0.4:
            verify(rng.choice(live))
    rng.shuffle(live)
    for e in live:
        verify(e)
    # replacing parameters after everything has been read once
    for g in base:
        if not g.params or not all(isinstance(p, (int, float)) for p in g.params):
            continue
        h = g.dagger.controlled(1)
        _matrix(ctx, h)
        for _ in range(2):
            new = tuple(p + rng.choice([1e-6, -1e-4, 0.5, 2 * np.pi, -2 * p]) for p in g.params)
            n = h.replace_params(new)
            ctx.check(tuple(n.params) == new and tuple(h.params) == tuple(g.params), "parameters after a replacement", got=n.params, want=new, gate=str(h))
            b = g.replace_params(new)
            m = _matrix(ctx, b)
            ctx.close(_matrix(ctx, n), _ctrl(m.conj().T, 1), "matrix after a replacement", 1e-9, gate=str(h), new=new)
            ctx.ev("history_replacements")
    ctx.nontrivial([e[3] for e in live])


def case_history_hard(ctx):
    """Fractional powers and exponentials of one gate and its near copies, in mixed order."""
    rng = ctx.rng
    g = rng.choice(gen.similar_pool(ctx, 1))
    pool = [g, gen.variant(ctx, g), gen.variant(ctx, g)]
    steps = [("root", 1 / 2), ("root", 1 / 3), ("root", 0.25), ("exp", None), ("pow", 2), ("pow", 3), ("pow", 1)]
    todo = [(h, s) for h in pool for s in rng.sample(steps, 3)]
    todo += todo[:2]
    rng.shuffle(todo)
    for h, s in todo:
        m = _matrix(ctx, h)
        if _scale(m) > 3 or (s[0] == "root" and np.linalg.cond(m) > 1e3):
            continue
        _step(ctx, h, m, s, [], None, h, 1 if s[0] in ("root", "exp") else 0)
        ctx.ev("history_hard")
    ctx.nontrivial([str(h) + _describe([s]) for h, s in todo])


WORKLOADS = [
    dict(name="catalog", case=case_catalog, quick=324, thorough=4000, hang="never", cpu_limit=5.0),
    dict(name="tame", case=case_tame, quick=450, thorough=8000, hang="never", cpu_limit=6.0),
    dict(name="hard", case=case_hard, quick=220, thorough=5000, hang="never", cpu_limit=5.0),
    dict(name="nested", case=case_nested, quick=80, thorough=1500, hang="never", cpu_limit=4.0),
    dict(name="replace", case=case_replace, quick=500, thorough=8000),
    dict(name="symbolic", case=case_symbolic, quick=250, thorough=4000),
    dict(name="big_control", case=case_big_control, quick=60, thorough=600),
    dict(name="history", case=case_history, quick=150, thorough=3000, hang="inconclusive", cpu_limit=20.0),
    dict(name="history_hard", case=case_history_hard, quick=60, thorough=1200, hang="never", cpu_limit=8.0),
    dict(name="manual", case=case_manual, quick=200, thorough=3000, hang="inconclusive", cpu_limit=20.0),
]
REQUIRED_EVENTS = ("modifier_dag", "modifier_ctrl", "modifier_pow", "modifier_root", "modifier_exp", "replacements",
                   "replaced_matrices", "symbolic_chains", "big_controls", "nested_chains", "history_reads", "history_hard")
MAX_RESOURCE_FRACTION = 0.1
