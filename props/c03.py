"""C03 - Pauli operator arithmetic is faithful to matrix arithmetic."""
import itertools

import numpy as np

from orquestra.quantum.operators import PauliSum, PauliTerm

from vmon import gen, lits, ref

PROPERTY = "C03"
RULE = (
    "all pairs of Pauli strings on up to three qubits exhaustively (+, -, * in both orders), "
    "random terms/sums/numbers (int, float, complex, zero, duplicate and cancelling terms, "
    "the empty sum, multi-digit qubit indices) under every operator on either side, random "
    "expression trees, powers, simplification and equality; each result is compared with an "
    "exact symbolic Pauli algebra and, on small registers, with dense Kronecker products. "
    "Identified by the operands and the operation."
)
ASSUMPTIONS = [
    "coefficients below the library's 1e-8 zero tolerance may be dropped",
    "equality is asserted for coefficient differences of at most 5e-9 and inequality for those of at "
    "least max(1e-4 |c|, 1e-7); the band between belongs to the tolerance",
    "numpy scalars as left operands are left out (numpy takes over the operation)",
]


def model(x):
    """Exact model of an operand: {frozenset: coefficient}."""
    if isinstance(x, (PauliTerm, PauliSum)):
        return ref.canon(ref.lib_terms(x))
    return {frozenset(): complex(x)}


def m_add(a, b, sign=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + sign * c
    return out


def m_mul(a, b):
    out = {}
    for (ka, ca), (kb, cb) in itertools.product(a.items(), b.items()):
        c, ops = ref.mul_terms((ca, dict(ka)), (cb, dict(kb)))
        k = frozenset(ops.items())
        out[k] = out.get(k, 0) + c
    return out


def m_scale(a, s):
    return {k: c * s for k, c in a.items()}


def m_pow(a, p):
    out = {frozenset(): 1 + 0j}
    for _ in range(p):
        out = m_mul(out, a)
    return out


def size(m):
    return sum(abs(c) for c in m.values())


def compare(ctx, got, want, label, slack=1.0, **witness):
    ctx.check(isinstance(got, (PauliTerm, PauliSum)), f"{label}: not an operator", got=got, **witness)
    g = model(got)
    scale = max([abs(c) for c in want.values()] + [0.0])
    tol = 1.05e-8 * slack + 1e-11 * max(scale, 1.0) * slack
    for k in set(g) | set(want):
        d = abs(g.get(k, 0) - want.get(k, 0))
        if not d <= tol:
            ctx.fail(f"{label}: coefficient of {sorted(k)} is {g.get(k, 0)} instead of {want.get(k, 0)}",
                     got=got, **witness)
    ctx.ev("oracle")
    ctx.ev("algebra_comparisons")
    qubits = sorted({q for k in set(g) | set(want) for q, _ in k})
    n = (qubits[-1] + 1) if qubits else 0
    if n <= 4:
        gm = ref.sum_matrix(ref.lib_terms(got), n)
        wm = ref.sum_matrix([(c, dict(k)) for k, c in want.items()], n)
        ctx.close(gm, wm, f"{label}: denoted matrix", tol * (len(want) + len(g) + 1), **witness)
        ctx.ev("matrix_comparisons")


STRINGS = {n: list(itertools.product("IXYZ", repeat=n)) for n in (1, 2, 3)}


def _term(string, c=1.0, offset=0):
    return PauliTerm({q + offset: p for q, p in enumerate(string)}, c)


def case_pairs(ctx):
    """Exhaustive pairs: index selects the left string."""
    strings = STRINGS[3]
    left = strings[ctx.index % len(strings)]
    a = _term(left, 2.0)
    ma = model(a)
    mat_a = ref.sum_matrix([(2.0, dict(enumerate(left)))], 3)
    for right in strings:
        b = _term(right, -1.5j)
        mat_b = ref.sum_matrix([(-1.5j, dict(enumerate(right)))], 3)
        mb = model(b)
        for label, got, want in (
            ("product", a * b, mat_a @ mat_b),
            ("sum", a + b, mat_a + mat_b),
            ("difference", a - b, mat_a - mat_b),
            ("product of a sum and a term", PauliSum([a]) * b, mat_a @ mat_b),
            ("product of a term and a sum", a * PauliSum([b]), mat_a @ mat_b),
        ):
            ctx.close(ref.sum_matrix(ref.lib_terms(got), 3), want, f"{label} of {left} and {right}", 1e-9)
            ctx.ev("pairs")
        compare(ctx, a * b, m_mul(ma, mb), "product", a=a, b=b)
    ctx.nontrivial("pairs", left)
    ctx.sample("all right factors for", "".join(left))


def _indices(rng):
    r = rng.random()
    if r < 0.5:
        return range(rng.randint(1, 4))
    if r < 0.8:
        return rng.sample(range(12), 4)
    pool = [0, 1, 2, 9, 10, 11, 12, 19, 21, 99, 100, 101, 110, 1000, 12345]
    pool += lits.ints_in(0, 200)
    return rng.sample(sorted(set(pool)), 4)


def _coeff(rng, small=True):
    if small and rng.random() < 0.15:
        return gen.coefficient(rng)
    v = rng.choice([rng.uniform(-3, 3), float(rng.randint(-4, 4)), rng.randint(-4, 4),
                    rng.choice([1, -1, 1.0, -1.0, 0.5, 0, 0.0, 2])])
    r = rng.random()
    if r < 0.6:
        return v
    if r < 0.8:
        return complex(v, rng.uniform(-3, 3))
    return rng.choice([1j, -1j, 2j, complex(v, 0.0), complex(0, v), -1 + 0j])


def _rand_term(rng, qs, **kw):
    c = _coeff(rng, **kw)
    ops = gen.pauli_ops(rng, 0, qubits=qs)
    items = list(ops.items())
    rng.shuffle(items)
    r = rng.random()
    if r < 0.4:
        return PauliTerm(dict(items), c)
    if r < 0.7:
        return PauliTerm.from_iterable([(p, q) for q, p in items], c)
    if r < 0.8 and items:
        return PauliTerm("*".join(f"{p}{q}" for q, p in items), c)
    if r < 0.9:
        extra = {q: "I" for q in qs if rng.random() < 0.3 and q not in ops}
        return PauliTerm({**dict(items), **extra}, c)
    return PauliTerm(dict(items)) * c if c else PauliTerm(dict(items), c)


def _rand_sum(rng, qs, **kw):
    k = rng.choice([0, 1, 2, 2, 3, 4, 5, 7])
    ts = []
    for _ in range(k):
        r = rng.random()
        if ts and r < 0.25:
            t = rng.choice(ts)
            same = rng.random() < 0.4  # the very same object listed again
            ts.append(t if same else t.copy(rng.choice([_coeff(rng, **kw), -t.coefficient, t.coefficient])))
        else:
            ts.append(_rand_term(rng, qs, **kw))
    return PauliSum(ts)


def _operand(rng, qs, number=True, **kw):
    r = rng.random()
    if number and r < 0.2:
        return _coeff(rng, **kw)
    if r < 0.55:
        return _rand_term(rng, qs, **kw)
    return _rand_sum(rng, qs, **kw)


def case_binary(ctx):
    rng = ctx.rng
    qs = list(_indices(rng))
    a, b = _operand(rng, qs), _operand(rng, qs)
    if not isinstance(a, (PauliTerm, PauliSum)) and not isinstance(b, (PauliTerm, PauliSum)):
        b = _rand_sum(rng, qs)
    if isinstance(a, (PauliTerm, PauliSum)):  # operands sharing objects
        r = rng.random()
        if r < 0.12:
            b = a
        elif r < 0.2:
            ts = [t for t in a.terms if rng.random() < 0.7]
            rng.shuffle(ts)
            b = PauliSum(ts)
        elif r < 0.25 and a.terms:
            b = rng.choice(a.terms)
    ma, mb = model(a), model(b)
    sa, sb = repr(a), repr(b)
    slack = 1 + len(ma) + len(mb)
    w = dict(a=a, b=b)
    ctx.note(a, "|", b)
    compare(ctx, a + b, m_add(ma, mb), "a + b", slack, **w)
    compare(ctx, a - b, m_add(ma, mb, -1), "a - b", slack, **w)
    compare(ctx, a * b, m_mul(ma, mb), "a * b", 1 + len(ma) * len(mb), **w)
    compare(ctx, b * a, m_mul(mb, ma), "b * a", 1 + len(ma) * len(mb), **w)
    if rng.random() < 0.5:
        compare(ctx, b + a, m_add(ma, mb), "b + a", slack, **w)
        compare(ctx, b - a, m_add(mb, ma, -1), "b - a", slack, **w)
    for x, mx in ((a, ma), (b, mb)):
        if isinstance(x, (PauliTerm, PauliSum)):
            s = _coeff(rng)
            compare(ctx, x * s, m_scale(mx, complex(s)), "x * scalar", len(mx) + 1, x=x, s=s)
            compare(ctx, s * x, m_scale(mx, complex(s)), "scalar * x", len(mx) + 1, x=x, s=s)
            compare(ctx, x + s, m_add(mx, model(s)), "x + scalar", len(mx) + 1, x=x, s=s)
            compare(ctx, s + x, m_add(mx, model(s)), "scalar + x", len(mx) + 1, x=x, s=s)
            compare(ctx, x - s, m_add(mx, model(s), -1), "x - scalar", len(mx) + 1, x=x, s=s)
            compare(ctx, s - x, m_add(model(s), mx, -1), "scalar - x", len(mx) + 1, x=x, s=s)
            if abs(s) > 1e-3:
                compare(ctx, x / s, m_scale(mx, 1 / complex(s)), "x / scalar", len(mx) + 1, x=x, s=s)
    ctx.check(repr(a) == sa and repr(b) == sb, "operands changed by arithmetic", before=(sa, sb), after=(a, b))
    ctx.nontrivial(sa, sb)
    ctx.sample(sa, "with", sb)


def case_power(ctx):
    rng = ctx.rng
    qs = list(_indices(rng))
    if rng.random() < 0.5:
        x = _rand_term(rng, qs, small=False)
        p = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17])
        if abs(x.coefficient) > 2 or (x.coefficient and abs(x.coefficient) < 0.3):
            x = x.copy(rng.choice([1, -1, 1j, -1j, 0.8, 1.2j]))
        if rng.random() < 0.25:
            # high powers of terms of a unit modulus, of any phase
            x = x.copy(rng.choice([1, -1, 1j, -1j, -1.0, 0.6 + 0.8j, 0.8 - 0.6j]))
            p = rng.choice([rng.randint(5, 40), rng.randint(5, 40), rng.randint(40, 300)] + lits.ints_in(5, 1000))
    else:
        x = _rand_sum(rng, qs, small=False)
        p = rng.choice([0, 1, 2, 3, 3, 4, 5])
        if len(x) > 4:
            p = min(p, 3)
    mx = model(x)
    want = m_pow(mx, p)
    mag = max(1.0, size(mx)) ** p
    before = repr(x)
    got = x**p
    compare(ctx, got, want, f"power {p}", slack=mag * (1 + len(want)), x=x)
    ctx.check(repr(x) == before, "operand changed by power", before=before, after=x)
    for bad in (-1, -3, 0.5, 1.5, "2", None):
        ctx.raises((ValueError, TypeError), lambda: x**bad, f"power {bad!r} accepted", x=x)
    ctx.nontrivial(before, p)
    ctx.ev("powers")
    ctx.sample(before, "to the power", p)


def case_tree(ctx):
    """A random expression over a few shared leaves, with arbitrary nesting."""
    rng = ctx.rng
    qs = list(_indices(rng))[:3]
    leaves = [_operand(rng, qs, small=False) for _ in range(3)]
    leaves = [(x, model(x), repr(x)) for x in leaves]
    text = []

    def build(depth):
        if depth == 0:
            x, mx, _ = rng.choice(leaves)
            return x, mx, 1 + len(mx)
        op = rng.choice("+-*+-*sd")
        a, ma, ta = build(depth - 1)
        if op in "sd":
            if not isinstance(a, (PauliTerm, PauliSum)):
                return a, ma, ta
            s = rng.choice([2, -1, 0.5, 1j, -0.5 + 1j, 3])
            text.append(f"{op}{s}")
            if op == "s":
                return (a * s if rng.random() < 0.5 else s * a), m_scale(ma, s), ta * 3
            return a / s, m_scale(ma, 1 / s), ta * 2
        b, mb, tb = build(rng.randrange(depth))
        text.append(op)
        if op == "+":
            return a + b, m_add(ma, mb), ta + tb
        if op == "-":
            return a - b, m_add(ma, mb, -1), ta + tb
        return a * b, m_mul(ma, mb), (ta + 1) * (size(mb) + 1) + (tb + 1) * (size(ma) + 1)

    got, want, slack = build(rng.randint(1, 4))
    if isinstance(got, (PauliTerm, PauliSum)):
        compare(ctx, got, want, "expression", slack=slack, leaves=[x[2] for x in leaves], ops="".join(text))
        ctx.nontrivial([x[2] for x in leaves], text)
        ctx.ev("expressions")
    for x, _, before in leaves:
        ctx.check(repr(x) == before, "shared operand changed", before=before, after=x)
    ctx.sample([x[2] for x in leaves], "".join(text))


def _distinct_terms(rng, qs, k):
    seen, out = set(), []
    while len(out) < k:
        ops = gen.pauli_ops(rng, 0, qubits=qs)
        key = frozenset(ops.items())
        if key in seen:
            if len(seen) >= 4 ** len(qs):
                break
            continue
        seen.add(key)
        c = 0
        while abs(c) < 1e-3:
            c = _coeff(rng, small=False)
        if rng.random() < 0.15:
            c *= 10 ** rng.uniform(-2, 5)
        out.append(PauliTerm(ops, c))
    return out


def case_simplify(ctx):
    rng = ctx.rng
    qs = list(_indices(rng))
    s = _rand_sum(rng, qs)
    ms = model(s)
    before = repr(s)
    t = s.simplify()
    compare(ctx, t, ms, "simplify", len(s) + 1, s=s)
    keys = [k.operations for k in t.terms]
    ctx.check(len(keys) == len(set(keys)), "simplified sum has like terms", s=before, got=t)
    ctx.check(repr(s) == before, "simplify changed its receiver", before=before, after=s)
    ctx.check(t.simplify() == t, "simplify is not idempotent", s=before)
    perm = list(s.terms)
    rng.shuffle(perm)
    p = PauliSum(perm).simplify()
    big = all(abs(c) < 1e-12 or abs(c) > 1e-6 for c in ms.values())
    if big:
        ctx.check(p == t and t == p, "simplified sums of permuted terms differ", s=before, perm=p)
    ctx.nontrivial("simplify", before)
    ctx.ev("simplifications")
    ctx.sample(before, "->", t)


def case_equality(ctx):
    rng = ctx.rng
    qs = list(_indices(rng))
    k = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    terms = _distinct_terms(rng, qs, k)
    a = PauliSum(terms)
    perm = [t.copy() for t in terms]
    rng.shuffle(perm)

    def expect(x, y, want, why):
        ctx.check((x == y) is want or bool(x == y) == want, f"== is not {want}: {why}", x=x, y=y)
        ctx.check(bool(y == x) == want, f"== is not {want} (swapped): {why}", x=x, y=y)
        ctx.check(bool(x != y) == (not want), f"!= disagrees: {why}", x=x, y=y)
        ctx.ev("equalities" if want else "inequalities")

    expect(a, PauliSum(perm), True, "same terms in another order")
    near = [t.copy(t.coefficient + 5e-9 * rng.choice([1, -1, 1j, -1j]) * rng.random()) for t in perm]
    expect(a, PauliSum(near), True, "coefficients within tolerance")
    expect(a, PauliSum([t.copy(complex(t.coefficient)) for t in perm]), True, "coefficient type")
    if k == 1:
        expect(terms[0], a, True, "term and one-term sum")
        expect(terms[0], terms[0].copy(), True, "term and its copy")
    if terms:
        i = rng.randrange(len(terms))
        t = terms[i]
        d = max(1e-4 * abs(t.coefficient), 1e-7) * rng.choice([1.05, 2, 30, 1000])
        changed = list(perm)
        j = [x.operations for x in perm].index(t.operations)
        changed[j] = t.copy(t.coefficient + d * rng.choice([1, -1, 1j, -1j]))
        expect(a, PauliSum(changed), False, "one coefficient differs")
        dropped = perm[:j] + perm[j + 1:]
        expect(a, PauliSum(dropped), False, "one term missing")
        neg = list(perm)
        neg[j] = t.copy(-t.coefficient)
        expect(a, PauliSum(neg), False, "one sign differs")
        q = rng.choice(qs)
        cur = dict((qq, p) for qq, p in t.operations)
        new = rng.choice([p for p in "IXYZ" if p != cur.get(q, "I")])
        cur[q] = new
        other = PauliTerm(cur, t.coefficient)
        if all(other.operations != x.operations for x in terms):
            sub = list(perm)
            sub[j] = other
            expect(a, PauliSum(sub), False, "one operator differs")
            expect(t, other, False, "terms with different operators")
        if len(perm) >= 2:
            i2 = (j + 1) % len(perm)
            if abs(perm[i2].coefficient - perm[j].coefficient) > 1e-3:
                sw = list(perm)
                ci, cj = perm[i2].coefficient, perm[j].coefficient
                sw[i2], sw[j] = perm[i2].copy(cj), perm[j].copy(ci)
                big = max(abs(ci), abs(cj)) * 1e-4 < abs(ci - cj)
                if big:
                    expect(a, PauliSum(sw), False, "coefficients exchanged")
    c = rng.choice([0, 1, -2, 0.5, 1.5 + 2j, 3])
    const = PauliTerm({}, c)
    expect(const, c, True, "constant term and number")
    expect(const, c + 1, False, "constant term and another number")
    if c:
        expect(PauliSum([const]), c, True, "constant sum and number")
        expect(PauliSum([const, PauliTerm("Z1")]), c, False, "non-constant sum and number")
        expect(PauliTerm("Z1", c), c, False, "non-constant term and number")
    expect(PauliSum(), 0, True, "empty sum and zero")
    expect(PauliSum(), PauliTerm("X0", 0), True, "empty sum and a zero term")
    expect(PauliSum(), 1, False, "empty sum and one")
    expect(PauliTerm("X0", 0), PauliTerm("Z5", 0.0), True, "two zero terms")
    ctx.nontrivial("eq", repr(a))
    ctx.sample(a)


def case_large(ctx):
    """Many terms, long strings, and operators built up step by step."""
    rng = ctx.rng
    width = rng.choice([4, 6, 10, 20, 40])
    qs = rng.sample(range(rng.choice([width, 64, 200])), width) if width < 30 else list(range(width))

    def term():
        k = rng.choice([0, 1, 2, width // 2, width])
        return PauliTerm({q: rng.choice("XYZ") for q in rng.sample(qs, min(k, width))}, rng.choice([rng.uniform(-2, 2), complex(rng.uniform(-1, 1), rng.uniform(-1, 1)), 1, -1]))

    terms = [term() for _ in range(rng.choice([3, 10, 25, 60, 110]))]
    for _ in range(len(terms) // 3):
        t = rng.choice(terms)
        terms.insert(rng.randint(0, len(terms)), t if rng.random() < 0.4 else t.copy(rng.choice([-t.coefficient, 0.25, 1j])))
    whole = PauliSum(terms)
    want = model(whole)
    mark = repr(whole)
    slack = 1 + len(terms)
    # built up in several ways
    acc = PauliSum() if rng.random() < 0.7 else terms[0] * 0
    early = []
    for t in terms:
        if rng.random() < 0.2 and len(early) < 3:
            early.append((acc, model(acc)))  # earlier values stay what they were
        acc = acc + t if rng.random() < 0.7 else t + acc
    compare(ctx, acc, want, "sum built term by term", slack, terms=len(terms))
    acc2 = PauliSum()
    for t in terms:
        if isinstance(acc2, PauliSum) and rng.random() < 0.2 and len(early) < 6:
            early.append((acc2, model(acc2)))
        if rng.random() < 0.5:
            acc2 += t
        else:
            acc2 -= t * -1
    compare(ctx, acc2, want, "sum built by += and -=", slack, terms=len(terms))
    for x, mx in early:
        compare(ctx, x, mx, "an earlier value of an accumulated sum", 1.0, terms=len(terms))
    compare(ctx, sum(terms), want, "sum() of the terms", slack, terms=len(terms))
    simp = whole.simplify()
    compare(ctx, simp, want, "simplify a large sum", slack, terms=len(terms))
    ctx.check(len({t.operations for t in simp.terms}) == len(simp.terms), "simplified sum has like terms", terms=len(terms))
    cut = rng.randint(0, len(terms))
    a, b = PauliSum(terms[:cut]), PauliSum(terms[cut:])
    ma, mb = model(a), model(b)
    compare(ctx, a + b, want, "a + b, large", slack, terms=len(terms))
    compare(ctx, a - b, m_add(ma, mb, -1), "a - b, large", slack, terms=len(terms))
    small = PauliSum([term() for _ in range(rng.choice([1, 2, 5]))])
    ms = model(small)
    compare(ctx, whole * small, m_mul(want, ms), "large * small", 1 + len(terms) * len(small), terms=len(terms))
    compare(ctx, small * whole, m_mul(ms, want), "small * large", 1 + len(terms) * len(small), terms=len(terms))
    s = rng.choice([2, -0.5, 1j, complex(0.3, -2)])
    compare(ctx, whole * s, m_scale(want, s), "large * scalar", slack, s=s)
    compare(ctx, whole / s, m_scale(want, 1 / s), "large / scalar", 3 * slack, s=s)
    chain, mc = PauliTerm.identity(), {frozenset(): 1 + 0j}
    for t in rng.choices(terms, k=rng.choice([2, 4, 7])):
        t = t.copy(rng.choice([1, -1, 1j, -1j, 0.9]))
        chain = chain * t
        mc = m_mul(mc, model(t))
    compare(ctx, chain, mc, "chain of term products", 10, terms=len(terms))
    perm = list(simp.terms)
    rng.shuffle(perm)
    if all(abs(c) < 1e-12 or abs(c) > 1e-6 for c in want.values()):
        ctx.check(PauliSum(perm) == simp and simp == PauliSum(perm), "permuted large sums differ", terms=len(perm))
        if perm:
            i = rng.randrange(len(perm))
            other = list(perm)
            other[i] = perm[i].copy(-perm[i].coefficient)
            ctx.check(PauliSum(other) != simp and not simp == PauliSum(other), "large sums with one sign changed are equal", term=perm[i])
            ctx.ev("inequalities")
    ctx.check(repr(whole) == mark, "operand changed", terms=len(terms))
    ctx.ev("large_sums")
    ctx.nontrivial(mark[:3000])


def case_history(ctx):
    """Operators used, changed in place and used again: each result is about the current terms."""
    rng = ctx.rng
    qs = list(_indices(rng))
    pool = [_rand_sum(rng, qs, small=False) for _ in range(2)] + [_rand_term(rng, qs, small=False)]
    if rng.random() < 0.3:
        pool.append(PauliSum(_distinct_terms(rng, qs, rng.choice([8, 20, 60]))))
    held = []
    log = []

    def use(x):
        mx = model(x)
        w = dict(x=repr(x)[:600], log=log[-6:])
        y = rng.choice(pool)
        my = model(y)
        s = rng.choice([2, -0.5, 1j])
        kind = rng.choice(["simplify", "add", "sub", "mul", "scale", "pow", "eq", "add", "mul", "simplify", "hash"])
        log.append(kind)
        n, m = len(mx) + 1, len(my) + 1
        if kind == "simplify" and isinstance(x, PauliSum):
            got, want, slack = x.simplify(), mx, len(x) + 1
        elif kind == "add":
            got, want, slack = x + y, m_add(mx, my), n + m
        elif kind == "sub":
            got, want, slack = x - y, m_add(mx, my, -1), n + m
        elif kind == "mul" and n * m < 500:
            got, want, slack = x * y, m_mul(mx, my), 10 * n * m
        elif kind == "pow" and n < 10:
            got, want, slack = x**2, m_mul(mx, mx), 10 * n * n
        elif kind == "eq":
            other = PauliSum([t.copy() for t in x.terms]) if isinstance(x, PauliSum) else x.copy()
            ctx.check(bool(x == other) and bool(other == x), "== is not True: a copy of the current terms", **w)
            if isinstance(x, PauliSum) and all(abs(c) > 1e-6 for c in mx.values()) and mx:
                k = rng.randrange(len(x.terms))
                d = 1 + 2 * sum(abs(t.coefficient) for t in x.terms)
                changed = [t.copy() for t in x.terms]
                changed[k] = changed[k].copy(changed[k].coefficient + d)
                a, b = x.simplify(), PauliSum(changed).simplify()
                ctx.check(not bool(a == b) and bool(a != b), "== is not False: a changed copy of the current terms", **w)
            ctx.ev("equalities")
            return
        elif kind == "hash":
            hash(x), repr(x), len(x), x.qubits  # may fill whatever is remembered
            return
        else:
            got, want, slack = x * s, m_scale(mx, s), n
        compare(ctx, got, want, f"{kind} in a history", slack, **w)
        if kind != "simplify":  # (a simplified sum may share terms with its source)
            held.append((got, model(got), kind))
        ctx.ev("history_uses")

    for _ in range(rng.randint(6, 14)):
        x = rng.choice(pool)
        if rng.random() < 0.5:
            use(x)
            continue
        if isinstance(x, PauliTerm):
            x.coefficient = _coeff(rng, small=False)
            log.append("term.coefficient =")
        else:
            r = rng.random()
            ts = list(x.terms)
            if r < 0.2 and ts:
                rng.choice(ts).coefficient = _coeff(rng, small=False)
                log.append("sum.terms[i].coefficient =")
            elif r < 0.5:
                x.terms = _rand_sum(rng, qs, small=False).terms
                log.append("sum.terms = others")
            elif r < 0.7 and ts:
                i = rng.randrange(len(ts))
                ts[i] = _rand_term(rng, qs, small=False)
                x.terms = ts
                log.append("sum.terms = same number")
            elif r < 0.85 and ts:
                i = rng.randrange(len(ts))
                ts[i] = ts[i].copy(_coeff(rng, small=False))
                x.terms = ts
                log.append("sum.terms = another coefficient")
            elif isinstance(x.terms, list) and ts and r < 0.95:
                x.terms[rng.randrange(len(ts))] = _rand_term(rng, qs, small=False)
                log.append("sum.terms[i] =")
            else:
                rng.shuffle(ts)
                x.terms = ts[: rng.randint(0, len(ts))]
                log.append("sum.terms = part")
        use(x)
    # what was obtained on the way is what it was (changing a term itself may reach results sharing it)
    for got, mg, kind in held if not any("coefficient =" in e for e in log) else ():
        now = model(got)
        ctx.check(now == mg, "an earlier result changed when its operands did", kind=kind, got=now, was=mg, log=log)
    ctx.ev("histories")
    ctx.nontrivial("history", log, [repr(x)[:200] for x in pool])
    ctx.sample(log)


QUICK_SCALE = 1.5
WORKLOADS = [
    dict(name="large", case=case_large, quick=250, thorough=6000),
    dict(name="history", case=case_history, quick=2500, thorough=40000),
    dict(name="pairs", case=case_pairs, quick=64, thorough=64, fixed=True),
    dict(name="binary", case=case_binary, quick=10000, thorough=150000),
    dict(name="power", case=case_power, quick=3000, thorough=40000),
    dict(name="tree", case=case_tree, quick=5000, thorough=80000),
    dict(name="simplify", case=case_simplify, quick=4000, thorough=60000),
    dict(name="equality", case=case_equality, quick=4000, thorough=60000),
]
REQUIRED_EVENTS = ("pairs", "algebra_comparisons", "matrix_comparisons", "powers", "equalities", "inequalities", "large_sums", "histories")
