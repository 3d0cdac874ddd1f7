"""C13 - splitting, batching and recombining shots never loses or invents a shot."""
import math
from collections import Counter, OrderedDict, defaultdict
from fractions import Fraction

import numpy as np

from orquestra.quantum.circuits import (
    Circuit, X, combine_bitstrings, combine_measurement_counts, expand_sample_sizes, split_into_batches,
)
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.utils import scale_and_discretize

from vmon import lits
from vmon.core import hold_results

hold_results(
    globals(), "combine_bitstrings", "combine_measurement_counts", "expand_sample_sizes", "split_into_batches", "scale_and_discretize",
)

PROPERTY = "C13"
RULE = (
    "all (count, maximum) pairs up to 70x70 (150x150) and all pairs of counts up to 9 with maxima up to 10; random lists of 0-25 "
    "circuits with counts around multiples of the maximum, powers of two and ten up to 1e18, Python and numpy integers; "
    "pipelines expand -> batch -> run on a fake device that logs every shot -> combine; random and half-integer "
    "distributions of 1-40 outcomes (tuple/string keys, zero probabilities, thirds, tenths) with 1-5000 shots; weight "
    "lists of 1-60 positive ints/floats/numpy values from 1e-300 to 1e300 with totals up to 1e18. Oracle: conservation "
    "laws in exact integer/rational arithmetic over the log of shots. Identified by the input."
)
ASSUMPTIONS = [
    "distributions are normalised",
    "a batch may request more samples than the largest of its circuits (at least is what is asserted)",
]


class Token:
    """A circuit stand-in; the library must not care about the type."""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"c{self.i}"


def _circuits(rng, k):
    kind = rng.choice(["token", "token", "circuit", "int", "same"])
    if kind == "circuit":
        return [Circuit([X(i % 3)]) for i in range(k)]
    if kind == "int":
        return list(range(k))
    if kind == "same":
        t = Token(0)
        return [t] * k
    return [Token(i) for i in range(k)]


def _counts(rng, k, m):
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.4:
            n = rng.randint(1, 4) * m + rng.choice([-1, 0, 0, 1, rng.randint(0, m)])
        elif r < 0.6:
            n = rng.randint(1, 20)
        elif r < 0.7:
            n = m
        elif r < 0.8 and lits.INTS:
            n = abs(rng.choice(lits.INTS)) + rng.choice([-1, 0, 1])
        elif r < 0.9:
            n = rng.choice([2**rng.randint(0, 12), 10**rng.randint(0, 4)]) + rng.choice([-1, 0, 1])
        else:
            n = rng.randint(1, 3000)
        out.append(max(1, min(n, 400 * m)))
    return out


def _same(a, b):
    return a is b or a == b


def _check_expansion(ctx, circuits, counts, m, result):
    w = dict(counts=list(counts), maximum=m)
    ctx.check(len(result) == 3, "expand_sample_sizes: number of results", **w)
    new_circuits, new_counts, mult = [list(x) for x in result]
    ctx.check(len(mult) == len(circuits), "expand_sample_sizes: number of multiplicities", multiplicities=mult, **w)
    ctx.check(all(isinstance(x, (int, np.integer)) and x >= 1 for x in mult), "expand_sample_sizes: multiplicities", multiplicities=mult[:30], **w)
    ctx.check(len(new_circuits) == len(new_counts) == sum(mult), "expand_sample_sizes: lengths",
              circuits=len(new_circuits), samples=len(new_counts), multiplicities=sum(mult), **w)
    pos = 0
    for c, n, k in zip(circuits, counts, mult):
        part = new_counts[pos:pos + k]
        ctx.check(all(_same(x, c) for x in new_circuits[pos:pos + k]), "expand_sample_sizes: copies of another circuit", **w)
        ctx.check(all(isinstance(x, (int, np.integer)) for x in part), "expand_sample_sizes: sample counts are not integers", part=part[:10], **w)
        ctx.check(all(1 <= x <= m for x in part), "expand_sample_sizes: a sample count outside of 1..maximum", requested=n,
                  part=[x for x in part if not 1 <= x <= m][:5], **w)
        ctx.check(sum(int(x) for x in part) == int(n), "expand_sample_sizes: samples lost or invented", requested=n,
                  total=sum(int(x) for x in part), **w)
        pos += k
    ctx.ev("circuits_expanded", len(circuits))
    return new_circuits, new_counts, mult


def expand_grid(ctx):
    m = ctx.index + 1
    top = 150 if ctx.thorough else 70
    counts = list(range(1, top + 1))
    circuits = [Token(i) for i in counts]
    _check_expansion(ctx, circuits, counts, m, expand_sample_sizes(circuits, counts, m))
    if m <= 10:
        for a in range(1, 10):
            for b in range(1, 10):
                cs = [Token(0), Token(1)]
                _check_expansion(ctx, cs, [a, b], m, expand_sample_sizes(cs, [a, b], m))
                batches = list(split_into_batches(cs, [a, b], m))
                _check_batches(ctx, cs, [a, b], m, batches)
    for k in range(0, min(m + 2, 40)):
        cs = [Token(i) for i in range(k)]
        ns = [(7 * i) % 5 + 1 for i in range(k)]
        _check_batches(ctx, cs, ns, m, list(split_into_batches(cs, ns, m)))
    ctx.nontrivial(m)


def _check_batches(ctx, circuits, counts, m, batches):
    w = dict(n_circuits=len(circuits), counts=list(counts)[:30], maximum=m)
    seen = []
    for chunk, n in batches:
        chunk = list(chunk)
        ctx.check(1 <= len(chunk) <= m, "split_into_batches: batch size", size=len(chunk), **w)
        pos = len(seen)
        need = counts[pos:pos + len(chunk)]
        ctx.check(len(need) == len(chunk) and all(n >= x for x in need), "split_into_batches: a batch requests too few samples",
                  requested=n, need=need, **w)
        seen += chunk
    ctx.check(len(seen) == len(circuits) and all(_same(a, b) for a, b in zip(seen, circuits)),
              "split_into_batches: circuits are not covered exactly once in order", got=len(seen), **w)
    ctx.ev("batches", len(batches))


def big_numbers(ctx):
    """Counts and maxima beyond what floats represent."""
    rng = ctx.rng
    k = rng.randint(1, 4)
    m = rng.choice([10**rng.randint(12, 18), 2**rng.randint(40, 62), rng.randint(10**9, 10**18)]) + rng.choice([-1, 0, 1])
    counts = [max(1, m * rng.randint(0, 6) + rng.choice([-1, 0, 1, rng.randint(0, m)])) for _ in range(k)]
    circuits = [Token(i) for i in range(k)]
    _check_expansion(ctx, circuits, counts, m, expand_sample_sizes(circuits, counts, m))
    _check_batches(ctx, circuits, counts, 2, list(split_into_batches(circuits, counts, 2)))
    ctx.nontrivial(m, counts)


def _device(ctx, width, n, log):
    """Run n shots: returns the list of outcomes and logs them."""
    npr = ctx.np
    kind = ctx.rng.random()
    if kind < 0.2:
        shots = ["".join(str(b) for b in npr.integers(0, 2, size=width))] * n
    else:
        a = npr.integers(0, 2, size=(n, width))
        shots = ["".join(map(str, r)) for r in a]
    log.extend(shots)
    return shots


def pipeline(ctx):
    rng = ctx.rng
    m = rng.choice([1, 1, 2, 3, 5, 7, 8, 10, 100, rng.randint(1, 60)])
    k = rng.choice([0, 1, 1, 2, 3, 5, 8, 25])
    if rng.random() < 0.03:
        k = rng.choice([60, 130, 300])
    circuits = _circuits(rng, k)
    counts = [min(n, 60 * m, 600 if k < 50 else 20) for n in _counts(rng, k, m)]
    if rng.random() < 0.2:
        counts = [np.int64(n) for n in counts]
    arg_counts = tuple(counts) if rng.random() < 0.3 else list(counts)
    before = (list(circuits), list(arg_counts))
    new_circuits, new_counts, mult = _check_expansion(ctx, circuits, counts, m, expand_sample_sizes(circuits, arg_counts, m))
    ctx.check(list(arg_counts) == before[1] and all(_same(a, b) for a, b in zip(circuits, before[0])), "expand_sample_sizes changed its arguments")
    # batch the copies
    size = rng.choice([1, 2, 3, 4, 7, 100, len(new_circuits) or 1, (len(new_circuits) or 1) + 1])
    batches = list(split_into_batches(new_circuits, new_counts, size))
    _check_batches(ctx, new_circuits, new_counts, size, batches)
    # run them, logging every shot
    width = rng.choice([rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4), 8, 12])
    owner = [i for i, x in enumerate(mult) for _ in range(x)]
    logs = [[] for _ in circuits]
    over = rng.random() < 0.2  # the device may deliver more than asked for
    results = [_device(ctx, width, int(n) + (rng.randint(0, 3) if over else 0), logs[o]) for n, o in zip(new_counts, owner)]
    shared = rng.random() < 0.2 and not over
    if shared:  # a device that caches: equal requests give one and the same object
        logs = [[] for _ in circuits]
        by_request = {}
        results = [by_request.setdefault(int(n), x) for n, x in zip(new_counts, results)]
        for x, o in zip(results, owner):
            logs[o].extend(x)
        ctx.ev("shared_results")
    make = rng.choice([dict, dict, Counter, lambda c: defaultdict(int, c), OrderedDict])
    by_list = {}
    all_counts = [by_list.setdefault(id(r), make(Counter(r))) if shared else make(Counter(r)) for r in results]
    if rng.random() < 0.2:
        for d in all_counts:
            d.setdefault("0" * width, 0)
    all_bits = list(results) if shared else [list(r) for r in results]
    if rng.random() < 0.5:
        all_bits = [[tuple(map(int, s)) for s in r] for r in all_bits]
    mult_arg = tuple(mult) if rng.random() < 0.3 else mult
    snap = (repr(all_counts), repr(all_bits), list(mult_arg))
    combined = list(combine_measurement_counts(all_counts, mult_arg))
    bits = list(combine_bitstrings(all_bits, mult_arg))
    ctx.check((repr(all_counts), repr(all_bits), list(mult_arg)) == snap, "combining changed its arguments")
    w = dict(multiplicities=mult)
    ctx.check(len(combined) == len(circuits) == len(bits), "combining: number of results", got=(len(combined), len(bits)), **w)
    for i, n in enumerate(counts):
        want = Counter(logs[i])
        got = {s: c for s, c in combined[i].items() if c}
        ctx.check(got == dict(want), f"combine_measurement_counts: shots of circuit {i} lost or invented", want=dict(want), got=combined[i], **w)
        if not over:
            ctx.check(sum(combined[i].values()) == n, "combined total is not what was requested", requested=n, got=combined[i], **w)
        seq = ["".join(map(str, b)) for b in bits[i]]
        ctx.check(Counter(seq) == want, f"combine_bitstrings: shots of circuit {i} lost or invented", **w)
    again = list(combine_measurement_counts(all_counts, mult_arg)), list(combine_bitstrings(all_bits, mult_arg))
    ctx.check(again == (combined, bits), "combining twice gives different results", **w)
    ctx.check((repr(all_counts), repr(all_bits)) == snap[:2], "combining changed its arguments")
    if all_counts:
        ctx.raises(ValueError, lambda: combine_measurement_counts(all_counts[:-1], mult), "too few results", **w)
        ctx.raises(ValueError, lambda: combine_bitstrings(all_bits + [all_bits[0]], mult), "too many results", **w)
    ctx.ev("shots_traced", sum(map(len, logs)))
    ctx.ev("pipelines")
    ctx.nontrivial(list(map(int, counts)), m, size, snap[0])
    ctx.sample("counts", counts, "max", m, "batch", size)


def batching(ctx):
    rng = ctx.rng
    k = rng.choice([0, 1, 2, 5, 16, 50, rng.randint(0, 30), rng.choice([50, 257, 1000])])
    circuits = _circuits(rng, k)
    counts = _counts(rng, k, rng.choice([1, 5, 100]))
    if rng.random() < 0.3:
        counts.sort(reverse=rng.random() < 0.5)
    m = rng.choice([1, 2, 3, k or 1, (k or 2) - 1 or 1, k + 1, 1000, rng.randint(1, 20)])
    a = tuple(circuits) if rng.random() < 0.3 else circuits
    c = np.array(counts, dtype=int) if rng.random() < 0.15 else counts
    _check_batches(ctx, circuits, counts, m, list(split_into_batches(a, c, m)))
    ctx.raises(ValueError, lambda: list(split_into_batches(circuits, counts + [3], m)), "lists of different lengths")
    ctx.raises(ValueError, lambda: list(split_into_batches(circuits, counts, rng.choice([0, -1, -m]))), "batch size which is not positive")
    ctx.nontrivial(counts, m)


def _distribution(ctx):
    rng, npr = ctx.rng, ctx.np
    w = rng.choice([1, 1, 2, 3, 4, 6])
    k = rng.choice([1, 2, 2, 3, 4, 6, 10, 40])
    if rng.random() < 0.03:
        w, k = rng.choice([8, 11, 40]), rng.choice([100, 257, 600] + lits.ints_in(20, 1500))
    r = rng.random()
    if r < 0.75:
        keys = [tuple(int(x) for x in format(i, f"0{w}b")) for i in {rng.randrange(2**w) for _ in range(k)}] if w > 6 else [tuple(int(x) for x in format(i, f"0{w}b")) for i in rng.sample(range(2**w), min(k, 2**w))]
    else:
        keys = sorted({tuple(rng.randint(0, 9) for _ in range(w)) for _ in range(k)})
        rng.shuffle(keys)
    k = len(keys)
    kind = rng.choice(["random", "halves", "tenths", "uniform", "skewed", "eighths", "tiny"])
    if kind == "random":
        p = npr.random(k)
    elif kind == "halves":
        p = npr.integers(1, 4, size=k) * 2.0 + 1
    elif kind == "tenths":
        p = npr.integers(1, 10, size=k).astype(float)
    elif kind == "uniform":
        p = np.ones(k)
    elif kind == "eighths":
        p = npr.integers(1, 9, size=k) / 8
    elif kind == "tiny":
        p = 10.0 ** npr.uniform(-12, 0, size=k)
    else:
        p = npr.random(k) ** 6 + 1e-9
    p = [float(x) for x in p]
    zeros = 0
    if rng.random() < 0.3 and k > 1:
        for i in rng.sample(range(k), rng.randint(1, k - 1)):
            p[i] = 0.0
            zeros += 1
    if rng.random() < 0.3:
        weights = {"".join(map(str, x)): v for x, v in zip(keys, p)}
    else:
        weights = dict(zip(keys, p))
    return MeasurementOutcomeDistribution(weights)


def representing(ctx):
    rng = ctx.rng
    d = _distribution(ctx)
    before = [(k, float(v)) for k, v in d.distribution_dict.items()]
    support = {tuple(int(x) for x in k) for k, v in before if v > 0}
    k = len(before)
    for n in {rng.randint(1, 12), max(1, round(k * rng.uniform(0.5, 1.0))), max(1, round(k * rng.uniform(1.5, 2.0))), rng.choice([1, 2, 3, 5, 7, 10, 15, 100, 1000]), rng.choice([k, 2 * k, max(1, k // 2), 3 * k + 1]),
              rng.randint(1, 5000) if rng.random() < 0.3 else 4, rng.choice([20000, 100003]) if rng.random() < 0.01 else 1}:
        m = Measurements.get_measurements_representing_distribution(d, n)
        w = dict(distribution=before, shots=n, got=Counter(map(tuple, m.bitstrings)).most_common(8))
        ctx.check(isinstance(m, Measurements), "representing a distribution: type", **w)
        ctx.check(len(m.bitstrings) == n, f"representing a distribution: {len(m.bitstrings)} shots", **w)
        ctx.check(all(tuple(b) in support for b in m.bitstrings), "representing a distribution: shot outside of the support", **w)
        ctx.check([(x, float(v)) for x, v in d.distribution_dict.items()] == before, "representing a distribution changed it", **w)
        naive = sum(round(v * n) for _, v in before)
        ctx.ev("topped_up" if naive < n else "eliminated" if naive > n else "exactly_rounded")
        ctx.ev("shots_checked", n)
    ctx.nontrivial(before)
    ctx.sample(before)


def scaling(ctx):
    rng, npr = ctx.rng, ctx.np
    k = rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 25, 60])
    if rng.random() < 0.02:
        k = rng.choice([257, 1000, 3000] + lits.ints_in(20, 5000))
    kind = rng.choice(["uniform", "ints", "equal", "wide", "huge", "tiny", "tenths", "bigints", "near"])
    if kind == "uniform":
        v = [rng.random() + 1e-9 for _ in range(k)]
    elif kind == "ints":
        v = [rng.randint(1, 20) for _ in range(k)]
    elif kind == "equal":
        v = [rng.choice([1, 0.1, 1 / 3, 7])] * k
    elif kind == "wide":
        v = [10 ** rng.uniform(-12, 12) for _ in range(k)]
    elif kind == "huge":
        v = [10 ** rng.uniform(290, 307) for _ in range(k)]
    elif kind == "tiny":
        v = [10 ** rng.uniform(-300, -290) for _ in range(k)]
    elif kind == "tenths":
        v = [rng.randint(1, 9) / 10 for _ in range(k)]
    elif kind == "bigints":
        v = [rng.randint(1, 10**25) for _ in range(k)]
    else:
        v = [1 + rng.randint(0, 3) * 2**-52 for _ in range(k)]
    if k > 1 and rng.random() < 0.15:  # weights of nothing
        for i in rng.sample(range(k), rng.randint(1, k - 1)):
            v[i] = 0 if isinstance(v[i], int) else 0.0
        ctx.ev("zero_weights")
    total = rng.choice([1, 2, 3, k, 2 * k, k + 1, max(1, k - 1), 10, 1000, 10**6, 2**53 - 1, 2**53 + 1, 10**18, rng.randint(1, 500),
                        rng.randint(1, 10**16)])
    arg = list(v)
    r = rng.random()
    if r < 0.15:
        arg = tuple(v)
    elif r < 0.35 and kind != "bigints":
        arg = np.array(v)
    elif r < 0.45 and kind != "bigints":
        arg = [np.float64(x) for x in v]
    values = [Fraction(int(x)) if isinstance(x, (int, np.integer)) else Fraction(float(x)) for x in arg]
    before = list(arg)
    got = scale_and_discretize(arg, total)
    w = dict(weights=before[:12], n=k, total=total, got=list(got)[:12])
    ctx.check(list(arg) == before, "scale_and_discretize changed its argument", **w)
    ctx.check(len(got) == k, "scale_and_discretize: length", **w)
    ctx.check(all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in got), "scale_and_discretize: not integers", **w)
    ctx.check(sum(int(x) for x in got) == total, "scale_and_discretize: the sum is not the total", sum=sum(int(x) for x in got), **w)
    s = sum(values)
    for i, (g, x) in enumerate(zip(got, values)):
        share = x * total / s
        ctx.check(abs(int(g) - share) <= 1, f"scale_and_discretize: entry {i} is not within one of its share", share=float(share), entry=int(g), **w)
        ctx.check(int(g) >= 0, "scale_and_discretize: negative entry", **w)
    ctx.ev("scaled_lists")
    ctx.nontrivial(repr(before), total)
    ctx.sample(before[:6], "->", list(got)[:6])


def scaling_grid(ctx):
    """All weight lists over {1..4} of length up to 4 for one total."""
    import itertools

    total = ctx.index + 1
    for k in (1, 2, 3, 4):
        for v in itertools.product((1, 2, 3, 4) if k < 4 else (1, 2, 3), repeat=k):
            got = scale_and_discretize(list(v), total)
            ctx.check(sum(got) == total and len(got) == k, "scale_and_discretize: the sum is not the total", weights=v, total=total, got=got)
            ctx.check(all(abs(g - Fraction(x * total, sum(v))) <= 1 for g, x in zip(got, v)),
                      "scale_and_discretize: entry is not within one of its share", weights=v, total=total, got=got)
            ctx.ev("scaled_lists")
    ctx.nontrivial(total)


REQUIRED_EVENTS = ("circuits_expanded", "batches", "shots_traced", "topped_up", "eliminated", "exactly_rounded", "scaled_lists",
                   "refusals_observed", "shared_results", "zero_weights")
QUICK_SCALE = 3
WORKLOADS = [
    dict(name="expand_grid", case=expand_grid, quick=70, thorough=150, fixed=True),
    dict(name="scaling_grid", case=scaling_grid, quick=30, thorough=200, fixed=True),
    dict(name="pipeline", case=pipeline, quick=4000, thorough=20000),
    dict(name="batching", case=batching, quick=4000, thorough=20000),
    dict(name="big_numbers", case=big_numbers, quick=2000, thorough=8000),
    dict(name="representing", case=representing, quick=8000, thorough=40000),
    dict(name="scaling", case=scaling, quick=12000, thorough=60000),
]
