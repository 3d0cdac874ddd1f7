"""C10 - statistics computed from measurements are the exact sample statistics."""
from collections import Counter
from fractions import Fraction

import numpy as np

from orquestra.quantum.measurements import Measurements
from orquestra.quantum.measurements.expectation_values import get_expectation_values_from_parities
from orquestra.quantum.measurements.measurements import get_expectation_value_from_frequencies
from orquestra.quantum.measurements.parities import (
    check_parity, check_parity_of_vector, get_parities_from_measurements,
)
from orquestra.quantum.operators import PauliSum, PauliTerm

from vmon import gen, ref
from vmon.core import hold_results

hold_results(globals(), "get_expectation_values_from_parities", "get_parities_from_measurements")

PROPERTY = "C10"
RULE = (
    "random multisets of bitstrings (1 to 30000 shots, widths 1-80, uniform, biased, few distinct, single outcome, "
    "Python/numpy/bool bits) and Ising operators (overlapping, nested, repeated, constant and zero-coefficient terms, "
    "terms and sums, the empty sum, int/float/complex-typed real coefficients of many magnitudes); all small datasets "
    "exhaustively (width <= 2, <= 3 shots). Oracle: a loop over the shots in exact rational arithmetic. Identified by "
    "data and operator."
)
ASSUMPTIONS = [
    "floating point results are compared at 1e-10 relative to the coefficients",
    "Bessel's correction is not asserted for a single shot (division by zero)",
    "bitstrings have equal length and at least the operator's width",
]


def _model(shots, terms):
    """Exact (means, correlations) of the terms' products of Z over the shots."""
    n = len(shots)
    counts = Counter(shots)
    signs = []
    for _, qs in terms:
        signs.append({b: -1 if sum(1 for q in qs if b[q]) % 2 else 1 for b in counts})
    means = [Fraction(sum(c * s[b] for b, c in counts.items()), n) for s in signs]
    corr = [[Fraction(sum(c * si[b] * sj[b] for b, c in counts.items()), n) for sj in signs] for si in signs]
    return means, corr


def _bits(rng, npr, n, w):
    kind = rng.choice(["uniform", "uniform", "biased", "few", "one", "product"])
    if kind == "one":
        row = npr.integers(0, 2, size=w)
        a = np.tile(row, (n, 1))
    elif kind == "few":
        rows = npr.integers(0, 2, size=(rng.randint(1, 4), w))
        a = rows[npr.integers(0, len(rows), size=n)]
    elif kind == "biased":
        a = (npr.random((n, w)) < rng.choice([0.03, 0.1, 0.9])).astype(int)
    elif kind == "product":
        a = (npr.random((n, w)) < npr.random(w)).astype(int)
    else:
        a = npr.integers(0, 2, size=(n, w))
    return [tuple(int(x) for x in r) for r in a]


def _typed(rng, shots):
    r = rng.random()
    if r < 0.7:
        return list(shots)
    if r < 0.8:
        return [tuple(np.int8(x) for x in b) for b in shots]
    if r < 0.87:
        return [tuple(np.int64(x) for x in b) for b in shots]
    if r < 0.94:
        kind = rng.choice([bool, bool, np.bool_])
        return [tuple(kind(x) for x in b) for b in shots]
    return [tuple(np.uint8(x) for x in b) for b in shots]


def _operator(ctx, w):
    rng = ctx.rng
    r = rng.random()
    if r < 0.1:
        return PauliTerm({q: "Z" for q in rng.sample(range(w), rng.randint(0, min(w, 5)))}, gen.coefficient(rng, real=True))
    if r < 0.13:
        return PauliSum()
    terms, sets = [], []
    for _ in range(rng.choice([1, 2, 3, 3, 4, 6, 8])):
        k = rng.random()
        if sets and k < 0.15:
            qs = set(rng.choice(sets))  # repeated support
        elif sets and k < 0.4:
            qs = set(rng.choice(sets)) ^ set(rng.sample(range(w), rng.randint(0, min(w, 3))))
        elif k < 0.5:
            qs = set()
        elif k < 0.6:
            qs = set(range(w)) if w < 12 or rng.random() < 0.4 else set(rng.sample(range(w), rng.choice([12, w // 2, w - 1])))
        else:
            qs = set(rng.sample(range(w), rng.randint(1, min(w, 4))))
        sets.append(qs)
        order = list(qs)
        rng.shuffle(order)
        c = gen.coefficient(rng, real=True)
        if rng.random() < 0.3:
            c = complex(c)
        elif rng.random() < 0.1:
            c = np.float64(c)
        terms.append(PauliTerm({q: "Z" for q in order}, c))
    return PauliSum(terms)


def _terms(op):
    return [(complex(t.coefficient), sorted(int(q) for q in t.qubits)) for t in op.terms]


def _check_values(ctx, meas, shots, op, **w):
    terms = _terms(op)
    n, k = len(shots), len(terms)
    means, corr = _model(shots, terms)
    cs = [t[0] for t in terms]
    scale = max([1.0] + [abs(c) for c in cs])
    tol = 1e-10 * scale**2
    w = dict(operator=op, n_shots=n, data=Counter(shots).most_common(6), **w)
    for bessel in (False, True):
        if bessel and n == 1:
            continue
        ev = meas.get_expectation_values(op, bessel) if bessel else (
            meas.get_expectation_values(op) if ctx.rng.random() < 0.5 else meas.get_expectation_values(op, use_bessel_correction=False))
        vals = np.asarray(ev.values, dtype=complex)
        ctx.check(vals.shape == (k,), "number of values", got=vals.shape, **w)
        ctx.check(len(ev.correlations) == 1 and np.shape(ev.correlations[0]) == (k, k), "shape of the correlations", **w)
        ctx.check(len(ev.estimator_covariances) == 1 and np.shape(ev.estimator_covariances[0]) == (k, k), "shape of the covariances", **w)
        for i in range(k):
            want = cs[i] * float(means[i])
            ctx.close(vals[i], want, "expectation value of a term", 1e-10 * max(1, abs(cs[i])), term=i, **w)
            if not terms[i][1]:
                ctx.check(abs(vals[i] - cs[i]) <= 1e-14 * abs(cs[i]), "constant term contributes its coefficient", got=vals[i], **w)
                ctx.ev("constant_terms")
        want_corr = np.array([[cs[i] * cs[j] * float(corr[i][j]) for j in range(k)] for i in range(k)]).reshape(k, k)
        ctx.close(ev.correlations[0], want_corr, "correlations", tol, **w)
        den = n - 1 if bessel else n
        want_cov = np.array([[cs[i] * cs[j] * float((corr[i][j] - means[i] * means[j]) / den) for j in range(k)]
                             for i in range(k)]).reshape(k, k)
        ctx.close(ev.estimator_covariances[0], want_cov, f"covariances, bessel={bessel}", max(tol / den, 1e-15 * scale**2), **w)
        ctx.ev("bessel" if bessel else "plain")
    ctx.ev("operators")


def _check_parities(ctx, data, shots, op):
    terms = _terms(op)
    n = len(shots)
    par = get_parities_from_measurements(data, op)
    w = dict(operator=op, n_shots=n, data=Counter(shots).most_common(6))
    values = np.asarray(par.values).reshape(-1, 2) if len(terms) else np.zeros((0, 2))
    ctx.check(len(values) == len(terms), "number of parities", got=par.values, **w)
    odd = []
    counts = Counter(shots)
    for i, (_, qs) in enumerate(terms):
        o = {b for b in counts if sum(1 for q in qs if b[q]) % 2}
        odd.append(o)
        no = sum(counts[b] for b in o)
        ctx.check(values[i][0] == n - no and values[i][1] == no, "even and odd tallies", got=values[i], want=(n - no, no), term=i, **w)
    c = np.asarray(par.correlations[0])
    ctx.check(len(par.correlations) == 1 and c.shape == (len(terms), len(terms), 2), "shape of pair parities", got=c.shape, **w)
    for i in range(len(terms)):
        for j in range(len(terms)):
            no = sum(counts[b] for b in odd[i] ^ odd[j])
            ctx.check(c[i, j, 0] == n - no and c[i, j, 1] == no, "pair tallies", got=c[i, j], want=(n - no, no), pair=(i, j), **w)
    if n and len(terms):
        ev = get_expectation_values_from_parities(par)
        means, _ = _model(shots, terms)
        for i in range(len(terms)):
            ctx.close(ev.values[i], float(means[i]), "value from parities", 1e-12, term=i, **w)
    ctx.ev("parities")


def case_values(ctx):
    rng = ctx.rng
    w = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12, 33, 80])
    n = rng.choice([1, 1, 2, 3, 5, 10, 30, 100, 257, 1000])
    shots = _bits(rng, ctx.np, n, w)
    data = _typed(rng, shots)
    op = _operator(ctx, w)
    before = (repr(op), list(data))
    meas = Measurements(list(data))
    _check_values(ctx, meas, shots, op)
    _check_parities(ctx, data, shots, op)
    ctx.check(repr(op) == before[0] and data == before[1] and meas.bitstrings == before[1], "arguments changed", operator=op)
    if n == 1:
        ctx.ev("single_shot")
    if op.terms:
        ctx.nontrivial(before[0], Counter(shots))
        ctx.sample(op, n, w)


SMALL = [(w, k) for w in (1, 2) for k in (1, 2, 3)]


def case_small(ctx):
    """Every multiset of up to three shots on one or two qubits."""
    import itertools

    w, k = SMALL[ctx.index % len(SMALL)]
    outcomes = list(itertools.product((0, 1), repeat=w))
    subsets = [set(s) for r in range(w + 1) for s in itertools.combinations(range(w), r)]
    cs = [gen.coefficient(ctx.rng, real=True) for _ in subsets]
    op = PauliSum([PauliTerm({q: "Z" for q in s}, c) for s, c in zip(subsets, cs)] + [PauliTerm({w - 1: "Z"}, 0.5), PauliTerm({}, -2)])
    for shots in itertools.combinations_with_replacement(outcomes, k):
        shots = list(shots)
        ctx.rng.shuffle(shots)
        _check_values(ctx, Measurements(list(shots)), shots, op)
        _check_parities(ctx, shots, shots, op)
        _check_counts(ctx, shots, list(shots))
    ctx.nontrivial(w, k, cs)


def _check_counts(ctx, shots, data):
    meas = Measurements(data)
    counts = meas.get_counts()
    want = {"".join(map(str, b)): c for b, c in Counter(shots).items()}
    w = dict(n_shots=len(shots), data=list(want.items())[:8])
    ctx.check(dict(counts) == want and all(isinstance(k, str) for k in counts), "counts", got=list(counts.items())[:8], **w)
    ctx.check(sum(counts.values()) == len(shots), "counts do not sum to the number of shots", got=sum(counts.values()), **w)
    back = Measurements.from_counts(counts)
    ctx.check(dict(back.get_counts()) == want, "from_counts then get_counts", got=back.get_counts(), **w)
    ctx.check(Counter(map(tuple, back.bitstrings)) == Counter(shots), "from_counts gives other bitstrings", **w)
    dist = meas.get_distribution().distribution_dict
    ctx.check(len(dist) == len(want), "support of the distribution", got=len(dist), **w)
    for b, c in Counter(shots).items():
        p = dist.get(b, dist.get("".join(map(str, b))))
        ctx.check(p is not None and abs(p - c / len(shots)) <= 1e-12, "empirical probability", bitstring=b, got=p, want=c / len(shots), **w)
    ctx.ev("counts")


def case_counts(ctx):
    rng = ctx.rng
    w = rng.choice([1, 2, 3, 4, 6, 10, 40, 70])
    n = rng.choice([1, 2, 3, 7, 20, 100, 500, 2000])
    shots = _bits(rng, ctx.np, n, w)
    _check_counts(ctx, shots, _typed(rng, shots))
    # accumulating counts, in several shapes
    counts = {}
    for b in {"".join(map(str, s)) for s in shots}:
        counts[b] = rng.choice([1, 1, 2, 5, 17])
    items = list(counts.items())
    rng.shuffle(items)
    meas = Measurements.from_counts(dict(items))
    ctx.check(dict(meas.get_counts()) == counts, "from_counts/get_counts", counts=counts)
    ctx.check(len(meas.bitstrings) == sum(counts.values()), "number of shots from counts", counts=counts)
    total = Counter(counts)
    for _ in range(rng.randint(1, 3)):
        more = {b: rng.choice([1, 3, 8]) for b in rng.sample(sorted(counts), rng.randint(1, len(counts)))}
        if rng.random() < 0.3:
            more["".join(rng.choice("01") for _ in range(w))] = 2
        given = dict(more)
        meas.add_counts(more)
        total.update(given)
        ctx.check(more == given, "add_counts changed its argument", counts=given)
        ctx.check(dict(meas.get_counts()) == dict(total), "counts after add_counts", got=meas.get_counts(), want=dict(total))
        ctx.ev("add_counts")
    zero = dict(items)
    zero["0" * w] = 0 if "0" * w not in counts else counts["0" * w]
    z = Measurements.from_counts(zero).get_counts()
    ctx.check({k: v for k, v in z.items() if v} == counts, "a zero count added shots", got=z, counts=zero)
    a, b = Measurements(), Measurements()
    a.add_counts({"1" * w: 2})
    ctx.check(not b.bitstrings and not Measurements().bitstrings, "empty measurements share their shots")
    ctx.nontrivial(Counter(shots), counts)


def case_frequencies(ctx):
    """The building blocks, called directly."""
    rng = ctx.rng
    w = rng.choice([1, 2, 3, 5, 9, 20, 60])
    shots = _bits(rng, ctx.np, rng.choice([1, 2, 10, 200]), w)
    counts = Counter("".join(map(str, s)) for s in shots)
    big = rng.choice([10**6, 10**6, 2**31 - 1, 2**31, 2**32 + 1, 2**33, 10**12, 2**45])
    freq = {b: rng.choice([c, c, 1, big, big + 1, 3]) for b, c in counts.items()}
    qs = rng.sample(range(w), rng.randint(0, min(w, 6)))
    marked = rng.choice([list, tuple, set, frozenset])(qs)
    total = sum(freq.values())
    want = Fraction(sum(c * (-1) ** sum(int(b[q]) for q in qs) for b, c in freq.items()), total)
    got = get_expectation_value_from_frequencies(marked, freq)
    w_ = dict(marked=marked, frequencies=dict(list(freq.items())[:6]))
    ctx.check(isinstance(got, float) and abs(got - float(want)) < 1e-11, "expectation from frequencies", got=got, want=float(want), **w_)
    vec = np.array([list(s) for s in shots], dtype=rng.choice([int, np.int8, np.uint8, np.int64]))
    pv = np.asarray(check_parity_of_vector(vec, marked))
    for i, s in enumerate(shots):
        even = sum(s[q] for q in qs) % 2 == 0
        ctx.check(int(pv[i]) == int(even), "check_parity_of_vector", bitstring=s, marked=marked, got=pv[i])
        if i < 10:
            ctx.check(bool(check_parity(s, marked)) == even, "check_parity of a tuple", bitstring=s, marked=marked)
            ctx.check(bool(check_parity("".join(map(str, s)), marked)) == even, "check_parity of a string", bitstring=s, marked=marked)
            ctx.ev("parity_checks", 3)
    ctx.ev("frequencies")
    ctx.nontrivial(sorted(freq.items()), qs)


def case_big(ctx):
    """Many shots and many terms: exact tallies must still be exact."""
    rng = ctx.rng
    w = rng.choice([2, 3, 6, 10, 14, 20, 33, 70])
    n = rng.choice([2000, 5000, 12000, 30000, 70000] if w < 12 else [900, 2500, 5000, 9000])
    shots = _bits(rng, ctx.np, n, w)
    op = _operator(ctx, w)
    _check_values(ctx, Measurements(list(shots)), shots, op)
    _check_parities(ctx, shots, shots, op)
    _check_counts(ctx, shots, list(shots))
    ctx.nontrivial(repr(op), n, w, Counter(shots))


def case_history(ctx):
    """One measurements object through a life of changes; every reading is of its present shots."""
    rng = ctx.rng
    w = rng.choice([1, 2, 3, 5])
    model = _bits(rng, ctx.np, rng.choice([0, 1, 4, 12]), w)
    meas = Measurements(list(model)) if model or rng.random() < 0.5 else Measurements()
    ops = [_operator(ctx, w) for _ in range(2)]
    log = []

    def shot():
        return tuple(rng.randint(0, 1) for _ in range(w))

    def text(b):
        return "".join(map(str, b))

    for _ in range(rng.randint(5, 14)):
        act = rng.choice(["append", "extend", "assign", "replace", "flip_all", "pop", "add_counts", "shuffle",
                          "counts", "counts", "distribution", "values", "values", "parities", "back"])
        log.append(act)
        w_ = dict(history=log, shots=model)
        if act == "append":
            b = shot()
            meas.bitstrings.append(b)
            model.append(b)
        elif act == "extend":
            more = [shot() for _ in range(rng.randint(0, 5))]
            meas.bitstrings += more
            model += more
        elif act == "assign":
            model = [shot() for _ in range(rng.choice([len(model), len(model), 3, 7]))]
            meas.bitstrings = list(model)
        elif act == "replace" and model:
            i, b = rng.randrange(len(model)), shot()
            meas.bitstrings[i] = b
            model[i] = b
        elif act == "flip_all":
            model = [tuple(1 - x for x in b) for b in model]
            meas.bitstrings[:] = list(model)
        elif act == "pop" and model:
            i = rng.randrange(len(model))
            meas.bitstrings.pop(i)
            model.pop(i)
        elif act == "shuffle":
            rng.shuffle(model)
            meas.bitstrings = list(model)
        elif act == "add_counts":
            more = {text(shot()): rng.randint(1, 3) for _ in range(rng.randint(1, 2))}
            meas.add_counts(dict(more))
            for b, c in more.items():
                model += [tuple(map(int, b))] * c
        elif act == "counts":
            got = meas.get_counts()
            ctx.check(dict(got) == dict(Counter(map(text, model))), "counts of the present shots", got=got, **w_)
            got["0" * w] = 99  # the caller's own copy
            got.pop(next(iter(got)))
        elif act == "distribution" and model:
            d = meas.get_distribution().distribution_dict
            p = {b if isinstance(b, tuple) else tuple(map(int, b)): v for b, v in d.items() if v}
            c = Counter(model)
            ctx.check(set(p) == set(c) and all(abs(p[b] - c[b] / len(model)) < 1e-12 for b in c),
                      "distribution of the present shots", got=d, **w_)
            d.clear()
        elif act == "values" and len(model) > 1:
            _check_values(ctx, meas, list(model), rng.choice(ops), history=log)
        elif act == "parities" and model:
            _check_parities(ctx, meas.bitstrings, list(model), rng.choice(ops))
        elif act == "back" and model:
            other = Measurements.from_counts(meas.get_counts())
            ctx.check(Counter(map(tuple, other.bitstrings)) == Counter(model), "shots rebuilt from counts", **w_)
            other.bitstrings.append(shot())  # an object of its own
        ctx.check([tuple(b) for b in meas.bitstrings] == model or Counter(map(tuple, meas.bitstrings)) == Counter(model),
                  "shots changed by a reading", got=meas.bitstrings, **w_)
        model = [tuple(b) for b in meas.bitstrings]
        ctx.ev("history_steps")
    ctx.nontrivial(log, model)


def case_refuse(ctx):
    """Operators that are not Z-type are refused, not misread."""
    rng = ctx.rng
    w = rng.choice([1, 2, 4])
    shots = _bits(rng, ctx.np, 5, w)
    bad = PauliTerm({rng.randrange(w): rng.choice("XY")}, 1.0)
    op = bad if rng.random() < 0.4 else PauliSum([PauliTerm({0: "Z"}, 1), bad])
    ctx.raises(TypeError, lambda: Measurements(shots).get_expectation_values(op), "non-Ising operator", operator=op)
    ctx.raises(TypeError, lambda: get_parities_from_measurements(shots, op), "non-Ising operator", operator=op)
    ctx.nontrivial(repr(op))


QUICK_SCALE = 3
WORKLOADS = [
    dict(name="small", case=case_small, quick=18, thorough=180, fixed=True),
    dict(name="values", case=case_values, quick=2500, thorough=30000),
    dict(name="counts", case=case_counts, quick=1500, thorough=20000),
    dict(name="frequencies", case=case_frequencies, quick=1500, thorough=20000),
    dict(name="big", case=case_big, quick=40, thorough=200),
    dict(name="history", case=case_history, quick=800, thorough=12000),
    dict(name="refuse", case=case_refuse, quick=50, thorough=300),
]
REQUIRED_EVENTS = ("operators", "plain", "bessel", "constant_terms", "parities", "counts", "add_counts", "single_shot",
                   "frequencies", "parity_checks", "history_steps")
