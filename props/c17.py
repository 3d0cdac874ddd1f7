"""C17 - distributions stay normalised; marginals and distances obey their laws."""
import itertools
import math
import os
import pathlib
import warnings
from fractions import Fraction

import numpy as np

from orquestra.quantum.distributions import (
    MeasurementOutcomeDistribution, compute_clipped_negative_log_likelihood, compute_jensen_shannon_divergence, compute_mmd,
    create_bitstring_distribution_from_probability_distribution, evaluate_distribution_distance, is_normalized,
    load_measurement_outcome_distribution, load_measurement_outcome_distributions, save_measurement_outcome_distribution,
    save_measurement_outcome_distributions,
)

from vmon import lits

PROPERTY = "C17"
RULE = (
    "dictionaries of 1-70 subsystems with binary, single- and multi-digit outcomes as tuples (Python and numpy ints), bit "
    "strings and comma-separated strings, weights of many magnitudes and types (zeros, subnormals, integers, near-normalised), "
    "the same object asked repeatedly and edited in between, malformed ones (empty, negative, unequal length); every ordered list of distinct qubits for up to four subsystems and "
    "random lists above; pairs with equal, overlapping and disjoint supports, all kernel widths (scalar and lists) and "
    "clipping constants; saved singly and in lists. Oracle: exact rational sums, Gibbs' inequality, symmetry. Identified by "
    "the distributions."
)
ASSUMPTIONS = [
    "weights are Python or float64/integer numpy numbers with a total that is neither subnormal nor infinite; infinities and NaN are not judged",
    "distinct keys of one dictionary denote distinct outcomes",
    "a sum within 1e-9 of 1 counts as normalised",
    "an outcome of probability zero may be absent from a marginal",
]


def _weight(rng, kind):
    if kind == "counts":
        return rng.choice([rng.randint(0, 9), rng.randint(1, 5000), np.int64(rng.randint(0, 50)), 1])
    if kind == "tiny":
        return rng.uniform(0, 1) * 10 ** rng.uniform(-200, -5)
    if kind == "huge":
        return rng.uniform(0, 1) * 10 ** rng.uniform(5, 300)
    if kind == "mixed":
        return rng.choice([0, 0.0, 5e-324, 1e-30, 1.0, 1, rng.random(), 1e10, np.float64(rng.random()), rng.randint(1, 9)])
    if kind == "equal":
        return 1.0
    return rng.random()


def _number_of(rng, key, form):
    if form == "tuple":
        return key
    if form == "numpy":
        return tuple(np.int64(d) for d in key)
    if form == "bits":
        return "".join(map(str, key))
    if form == "comma":
        return ",".join(map(str, key))
    return key


def _keys(rng, n, k, top):
    keys = set()
    space = (top + 1) ** n
    if space <= 2048 and k > space // 3:
        allk = list(itertools.product(range(top + 1), repeat=n))
        return rng.sample(allk, min(k, len(allk)))
    while len(keys) < k:
        if keys and rng.random() < 0.3:
            base = list(rng.choice(sorted(keys)))
            base[rng.randrange(n)] = rng.randint(0, top)
            keys.add(tuple(base))
        else:
            keys.add(tuple(rng.randint(0, top) for _ in range(n)))
    keys = sorted(keys)
    rng.shuffle(keys)
    return keys


def _raw(ctx, n=None, top=None, k=None, kind=None, form=None):
    """(dictionary as passed, {tuple: exact weight}) with a positive total."""
    rng = ctx.rng
    n = n or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    top = top or rng.choice([1, 1, 1, 1, 2, 3, 9, 11, 130])
    space = (top + 1) ** n
    k = k or rng.choice([1, 2, 2, 3, 4, 6, 8, 12, 20, min(64, space)] * 3 + [min(500, space)])
    keys = _keys(rng, n, min(k, space), top)
    kind = kind or rng.choice(["unit", "unit", "counts", "tiny", "huge", "mixed", "equal", "norm", "norm", "almost"])
    weights = [_weight(rng, kind) for _ in keys]
    if not any(w > 1e-250 for w in weights):
        weights[rng.randrange(len(weights))] = 1 if kind == "counts" else 1.0
    if kind in ("norm", "almost"):
        tot = math.fsum(weights)
        if kind == "almost":
            tot *= 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -2)
        weights = [w / tot for w in weights]
    forms = ["tuple", "tuple", "numpy"] + (["bits", "comma"] if n > 1 and top <= 9 else ["comma"] if n > 1 else ["bits"] if top <= 9 else [])
    form = form or rng.choice(forms)
    d = {_number_of(rng, key, form): w for key, w in zip(keys, weights)}
    return d, {key: Fraction(float(w)) for key, w in zip(keys, weights)}


def _build(d, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return MeasurementOutcomeDistribution(d, **kw)


def _plain(key):
    return tuple(int(x) for x in key)


def _probs(ctx, dist, **w):
    """{tuple: float} of a distribution, after checking its form."""
    dd = dist.distribution_dict
    ctx.check(all(isinstance(k, tuple) for k in dd), "keys are tuples", got=dd, **w)
    out = {_plain(k): float(v) for k, v in dd.items()}
    ctx.check(len(out) == len(dd), "keys collide", got=dd, **w)
    return out


def _check_normalised(ctx, dist, **w):
    p = _probs(ctx, dist, **w)
    ctx.check(len(p) > 0 and all(v >= 0 for v in p.values()), "probabilities are non-negative", got=p, **w)
    s = math.fsum(p.values())
    ctx.check(abs(s - 1) <= 3e-9, "probabilities do not sum to 1", total=s, **w)
    ctx.check(len({len(k) for k in p}) == 1, "keys of unequal length", got=p, **w)
    return p


def _near(got, want, rel=3e-9, scale=1.0):
    return abs(got - want) <= rel * abs(want) + 1e-15 * scale


def construction(ctx):
    d, exact = _raw(ctx)
    rng = ctx.rng
    dist = _build(d) if rng.random() < 0.6 else _build(d, normalize=True)
    w = dict(input=d)
    p = _check_normalised(ctx, dist, **w)
    ctx.check(set(p) == set(exact), "outcomes differ from the input's", got=p, **w)
    total = sum(exact.values())
    for k, v in p.items():
        want = float(exact[k] / total)
        ctx.check(_near(v, want), "probability is not the input's proportion", outcome=k, got=v, want=want, **w)
    n = len(next(iter(exact)))
    ctx.check(dist.get_number_of_subsystems() == n, "number of subsystems", got=dist.get_number_of_subsystems(), **w)
    ctx.check(is_normalized(dist.distribution_dict), "is_normalized denies a normalised distribution", **w)
    # normalising again changes nothing
    again = _check_normalised(ctx, _build(dict(dist.distribution_dict)), **w)
    for k in p:
        ctx.check(_near(again[k], p[k]), "normalising twice changes probabilities", outcome=k, **w)
    ctx.ev("constructed")
    ctx.nontrivial(repr(d))
    ctx.sample("input", d)


def probabilities(ctx):
    """From an array of probabilities (of a state)."""
    n = ctx.rng.randint(1, 5)
    p = ctx.np.random(2**n) if ctx.rng.random() < 0.6 else (ctx.np.random(2**n) < 0.4).astype(float)
    if not p.any():
        p[0] = 1
    p = p / p.sum() if ctx.rng.random() < 0.8 else p * 7
    dist = create_bitstring_distribution_from_probability_distribution(p)
    got = _check_normalised(ctx, dist, probabilities=p)
    for i, key in enumerate(itertools.product([0, 1], repeat=n)):
        ctx.check(_near(got.get(key, 0.0), p[i] / math.fsum(p)), "distribution of an array of probabilities", outcome=key, got=got.get(key), probabilities=p)
    ctx.ev("constructed")
    ctx.nontrivial(p.tobytes())


def rejection(ctx):
    rng = ctx.rng
    d, exact = _raw(ctx, n=rng.choice([2, 3, 4]), top=rng.choice([1, 2, 9]))
    kind = rng.choice(["negative", "negative", "length", "length", "empty", "type"])
    key = rng.choice(list(d))
    if kind == "negative":
        bad = dict(d)
        bad[key] = -rng.choice([1, 0.5, 1e-3, 1e-9, 1e-12, 1e-16, 1e-300, float(abs(d[key])) or 1.0, 1e6])
        if rng.random() < 0.3:
            # compensated, so that the total looks right
            others = [k for k in bad if k != key]
            if others:
                rest = math.fsum(float(bad[k]) for k in others)
                if rest > 0:
                    for k in others:
                        bad[k] = float(bad[k]) / rest * (1 - float(bad[key]))
    elif kind == "length":
        bad = dict(d)
        full = next(iter(exact))
        other = full[: rng.randint(1, len(full) - 1)] if rng.random() < 0.5 else full + (rng.choice([0, 1]),) * rng.randint(1, 3)
        form = "tuple" if isinstance(key, tuple) else ("comma" if "," in key and len(other) > 1 else "bits")
        nk = _number_of(rng, other, form)
        w = rng.choice([0, 0.0, 1, 0.5, 1e-9])
        items = list(bad.items())
        items.insert(rng.randint(0, len(items)), (nk, w))
        bad = dict(items)
    elif kind == "empty":
        bad = {}
    else:
        bad = dict(d)
        nk = rng.choice([((0, -1) + (0,) * 9)[: len(next(iter(exact)))], (0.5,) * len(next(iter(exact))), 3, None])
        bad[nk] = 0.5
    ctx.raises((Exception,), lambda: _build(bad), f"malformed distribution ({kind}) accepted", input=bad)
    ctx.ev("rejected_" + kind)
    ctx.nontrivial(kind, repr(bad))


def _marginal_reference(p, qubits):
    out = {}
    for k, v in p.items():
        nk = tuple(k[q] for q in qubits)
        out.setdefault(nk, []).append(v)
    return {k: math.fsum(v) for k, v in out.items()}


def _snapshot(dist):
    return [(k, tuple(type(x) for x in k), v, type(v)) for k, v in dist.distribution_dict.items()]


def _check_marginal(ctx, dist, p, qubits, normalised=True):
    w = dict(distribution=dist, qubits=qubits)
    before, listed = _snapshot(dist), list(qubits)
    sub = ctx.hold(dist.subdistribution(qubits), "subdistribution")
    ctx.check(_snapshot(dist) == before, "marginalising changed the source", **w)
    ctx.check(list(qubits) == listed, "marginalising changed the list of qubits", **w)
    got = _check_normalised(ctx, sub, **w) if normalised else _probs(ctx, sub, **w)
    want = _marginal_reference(p, qubits)
    ctx.check(set(got) <= set(want), "marginal has outcomes that are no projection", got=got, **w)
    scale = math.fsum(p.values())
    for k, v in want.items():
        ctx.check(_near(got.get(k, 0.0), v, scale=scale), "marginal probability is not the sum of its outcomes", outcome=k, got=got.get(k), want=v, **w)
    ctx.ev("marginals")
    return sub, got


def all_marginals(ctx):
    """Every ordered list of distinct qubits."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 3, 4])
    d, _ = _raw(ctx, n=n, k=rng.choice([2, 4, 8, 16]), kind=rng.choice(["unit", "norm", "counts", "mixed"]))
    dist = _build(d)
    p = _probs(ctx, dist)
    for r in range(1, n + 1):
        for qubits in itertools.permutations(range(n), r):
            _check_marginal(ctx, dist, p, list(qubits))
    ctx.nontrivial(repr(d))


def marginals(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 4, 5, 6, 8, 12, 20])
    d, exact = _raw(ctx, n=n, k=rng.choice([1, 3, 8, 20, 40]))
    normalised = rng.random() < 0.75
    dist = _build(d, normalize=normalised)
    p = _probs(ctx, dist)
    total = math.fsum(p.values())
    if not normalised and 1e-11 < abs(total - 1) < 1e-4:
        return  # whether such a source counts as normalised is the library's business
    if not normalised and abs(total - 1) < 1e-6:
        normalised = True
    if not 1e-300 < total < 1e300:
        return
    for _ in range(4):
        r = rng.choice([1, 2, n, rng.randint(1, n)])
        qubits = rng.sample(range(n), min(r, n))
        if rng.random() < 0.3:
            qubits.sort()
        if rng.random() < 0.15:
            qubits = [np.int64(q) for q in qubits]
        sub, got = _check_marginal(ctx, dist, p, qubits, normalised)
        # a marginal of the marginal is a marginal of the source
        inner = rng.sample(range(len(qubits)), rng.randint(1, len(qubits)))
        if abs(math.fsum(got.values()) - 1) < 1e-9 or not normalised:
            _, got2 = _check_marginal(ctx, sub, got, inner, normalised)
            want = _marginal_reference(p, [qubits[i] for i in inner])
            for k, v in want.items():
                ctx.check(_near(got2.get(k, 0.0), v, 1e-8, scale=total), "marginal of a marginal", outcome=k, got=got2.get(k), want=v, distribution=dist, qubits=(qubits, inner))
    if not normalised:
        ctx.ev("unnormalised_marginals")
    ctx.nontrivial(repr(d), n)


def history(ctx):
    """One distribution asked again and again, for the same qubits in other orders, and changed in between."""
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 6, 7, 8, 10])
    top = rng.choice([1, 1, 1, 2, 9])
    d, _ = _raw(ctx, n=n, top=top, k=rng.choice([2, 5, 12, 30, 65, 90, 200]), kind=rng.choice(["unit", "norm", "counts", "mixed"]))
    dist, other = _build(d), _build(_raw(ctx, n=n, top=top, kind="unit")[0])
    base = rng.sample(range(n), rng.randint(1, n))
    for _ in range(rng.randint(5, 10)):
        p = _probs(ctx, dist)
        r = rng.random()
        if r < 0.65:
            qubits = list(base)
            if rng.random() < 0.6:
                rng.shuffle(qubits)
            elif rng.random() < 0.5:
                qubits = rng.sample(range(n), rng.randint(1, n))
            _check_marginal(ctx, dist, p, qubits)
        elif r < 0.75:
            x, y = float(compute_mmd(dist, other, {"sigma": 1.0})), float(compute_mmd(other, dist, {"sigma": 1.0}))
            ctx.check(abs(x - y) <= 1e-12 and x >= -1e-12 and abs(float(compute_mmd(dist, dist, {"sigma": 1.0}))) <= 1e-12,
                      "MMD within a history", got=(x, y), a=dist, b=other)
            ctx.ev("mmd")
        elif len(p) > 1 and r < 0.9:
            # two outcomes exchange their probabilities
            a, b = rng.sample(list(dist.distribution_dict), 2)
            dd = dist.distribution_dict
            dd[a], dd[b] = dd[b], dd[a]
        elif r < 0.95:
            dist.distribution_dict = dict(_build(_raw(ctx, n=n, top=top, k=len(p), kind="unit")[0]).distribution_dict)
        else:
            dist, other = other, dist
    ctx.ev("histories")
    ctx.nontrivial(repr(d), base)


def _pair(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12, 30, 62, 63, 64, 65, 70])
    top = rng.choice([1, 1, 1, 2, 9, 11, 130])
    small = dict(n=n, top=top, k=rng.choice([1, 2, 3, 5, 8, 16]))
    form = rng.choice(["tuple", "tuple", "numpy"])
    kinds = ["unit", "norm", "counts", "equal", "mixed"]
    a = _raw(ctx, kind=rng.choice(kinds), form=form, **small)[0]
    r = rng.random()
    if r < 0.3:
        b = _raw(ctx, kind=rng.choice(kinds), form=form, **small)[0]
    elif r < 0.65:
        # a perturbation of the same support, in another order
        items = [(k, v * rng.choice([1, 1, 0.5, 1.01, 0, 3]) + rng.choice([0, 0, 1e-9, 0.1])) for k, v in a.items()]
        rng.shuffle(items)
        if len(items) > 1 and rng.random() < 0.4:
            items.pop()
        b = dict(items)
    elif r < 0.8:
        # disjoint supports
        b = {k[:-1] + ((int(k[-1]) + 1) % (top + 2),): v for k, v in a.items()}
        b = {k: v for k, v in b.items() if k not in a} or dict(a)
    else:
        items = list(a.items())
        rng.shuffle(items)
        b = dict(items)
    if not any(v > 1e-200 for v in b.values()):
        b[next(iter(b))] = 1.0
    return a, b


def _sigma(rng):
    def one():
        v = rng.choice([1.0, 0.5, 2, 1, 10 ** rng.uniform(-6, 6), 10 ** rng.uniform(-3, 3), 0.1, 1e-12, 1e12])
        if lits.FLOATS and rng.random() < 0.1:
            v = abs(rng.choice(lits.FLOATS)) or 1.0
        return min(max(v, 1e-14), 1e14)

    r = rng.random()
    if r < 0.15:
        return None
    if r < 0.5:
        return one()
    if r < 0.6:
        return np.float64(one())
    s = [one() for _ in range(rng.randint(1, 5))]
    return s if r < 0.85 else np.array(s)


def distances(ctx):
    rng = ctx.rng
    a, b = _pair(ctx)
    da, db = _build(a), _build(b)
    pa, pb = _check_normalised(ctx, da, input=a), _check_normalised(ctx, db, input=b)
    keep = _snapshot(da), _snapshot(db)
    sigma = _sigma(rng)
    params = {} if sigma is None else {"sigma": sigma}
    w = dict(a=da, b=db, sigma=sigma)

    def mmd(x, y):
        if rng.random() < 0.3:
            return float(evaluate_distribution_distance(x, y, compute_mmd, distance_measure_parameters=params))
        return float(compute_mmd(x, y, params))

    ab, ba = mmd(da, db), mmd(db, da)
    ctx.check(math.isfinite(ab) and math.isfinite(ba), "MMD is not finite", got=(ab, ba), **w)
    ctx.check(abs(ab - ba) <= 1e-12, "MMD is not symmetric", got=(ab, ba), **w)
    ctx.check(ab >= -1e-12, "MMD is negative", got=ab, **w)
    ctx.check(abs(mmd(da, da)) <= 1e-12 and abs(mmd(db, db)) <= 1e-12, "MMD of a distribution with itself is not zero", got=(mmd(da, da), mmd(db, db)), **w)
    items = list(da.distribution_dict.items())
    rng.shuffle(items)
    twin = _build(dict(items))
    ctx.check(abs(mmd(da, twin)) <= 1e-12 and abs(mmd(twin, da)) <= 1e-12, "MMD with an equal distribution listed in another order is not zero",
              got=mmd(da, twin), **w)
    ctx.check(abs(mmd(twin, db) - ab) <= 1e-12, "MMD depends on the order of the outcomes", got=(mmd(twin, db), ab), **w)
    ctx.ev("mmd")
    # likelihoods
    eps = rng.choice([None, 1e-9, 1e-9, 1e-12, 1e-6, 1e-3, 0.1, 10 ** rng.uniform(-15, -1), 1e-300])
    params = {} if eps is None else {"epsilon": eps}
    e = 1e-9 if eps is None else eps
    w = dict(target=da, model=db, epsilon=eps)
    for x, y, px, py in ((da, db, pa, pb), (db, da, pb, pa), (da, da, pa, pa), (da, twin, pa, pa)):
        if rng.random() < 0.3:
            nll = float(evaluate_distribution_distance(x, y, compute_clipped_negative_log_likelihood, distance_measure_parameters=params))
        else:
            nll = float(compute_clipped_negative_log_likelihood(x, y, params))
        entropy = -math.fsum(v * math.log(v) for v in px.values() if v > 0)
        # Gibbs: sum_p p log(m/p) <= log(sum m), m the clipped model on the support
        mass = math.fsum(max(e, py.get(k, 0.0)) for k, v in px.items() if v > 0)
        ctx.check(math.isfinite(nll), "likelihood is not finite", got=nll, **w)
        ctx.check(nll >= entropy - max(0.0, math.log(mass)) - 1e-7, "clipped negative log-likelihood is below the target's entropy",
                  got=nll, entropy=entropy, constant=math.log(mass), x=x, y=y, **w)
        ctx.ev("likelihoods")
    one, two = (float(compute_jensen_shannon_divergence(x, y, params)) for x, y in ((da, db), (db, da)))
    ctx.check(math.isfinite(one) and abs(one - two) <= 1e-10 * (1 + abs(one)), "symmetrised divergence is not symmetric", got=(one, two), **w)
    three = float(compute_jensen_shannon_divergence(twin, db, params))
    ctx.check(abs(one - three) <= 1e-10 * (1 + abs(one)), "symmetrised divergence depends on the order of the outcomes", got=(one, three), **w)
    ctx.ev("divergences")
    ctx.check((_snapshot(da), _snapshot(db)) == keep, "computing a distance changed a distribution", **w)
    ctx.nontrivial(repr(a), repr(b), repr(sigma), eps)
    ctx.sample("a", a, "b", b, "sigma", sigma)


def persistence(ctx):
    rng = ctx.rng
    count = rng.choice([0, 1, 1, 2, 3, 6])
    dists = []
    for _ in range(count):
        d, _ = _raw(ctx)
        if rng.random() < 0.2:
            dists.append(_build(d).subdistribution([rng.randrange(len(next(iter(_build(d).distribution_dict))))]))
        else:
            dists.append(_build(d))
    path = os.path.join(ctx.tmpdir(), "dists.json")
    name = pathlib.Path(path) if rng.random() < 0.2 else path
    keep = [_snapshot(d) for d in dists]
    save_measurement_outcome_distributions(dists, name)
    loaded = load_measurement_outcome_distributions(name)
    w = dict(saved=dists)
    ctx.check(len(loaded) == count, "number of loaded distributions", got=loaded, **w)
    for i, (a, b) in enumerate(zip(dists, loaded)):
        _same(ctx, a, b, f"distribution {i} of a list changed by saving and loading", **w)
    if dists:
        path = os.path.join(ctx.tmpdir(), "dist.json")
        name = pathlib.Path(path) if rng.random() < 0.2 else path
        for d in (dists[0], loaded[0]):
            save_measurement_outcome_distribution(d, name)  # overwrites
            _same(ctx, dists[0], load_measurement_outcome_distribution(name), "distribution changed by saving and loading", saved=d)
            with open(path) as f:
                _same(ctx, dists[0], load_measurement_outcome_distribution(f), "distribution changed by loading from a stream", saved=d)
        ctx.ev("round_trips")
    ctx.check([_snapshot(d) for d in dists] == keep, "saving changed a distribution", **w)
    ctx.nontrivial([repr(d) for d in dists])


def _same(ctx, a, b, msg, **w):
    pa, pb = _probs(ctx, a), _check_normalised(ctx, b, **w)
    ctx.check(set(pa) == set(pb), msg + ": keys", got=b, want=a, **w)
    for k in pa:
        ctx.check(abs(pa[k] - pb[k]) <= 1e-14 * pa[k], msg + ": probabilities", outcome=k, got=pb[k], want=pa[k], **w)
    ctx.check(b.get_number_of_subsystems() == a.get_number_of_subsystems(), msg + ": subsystems", got=b, want=a, **w)


REQUIRED_EVENTS = ("constructed", "rejected_negative", "rejected_length", "rejected_empty", "marginals", "unnormalised_marginals", "mmd", "likelihoods", "divergences", "round_trips", "histories")
QUICK_SCALE = 4
WORKLOADS = [
    dict(name="construction", case=construction, quick=6000, thorough=480000),
    dict(name="probabilities", case=probabilities, quick=450, thorough=36000),
    dict(name="rejection", case=rejection, quick=4500, thorough=240000),
    dict(name="all_marginals", case=all_marginals, quick=600, thorough=48000),
    dict(name="marginals", case=marginals, quick=2400, thorough=240000),
    dict(name="history", case=history, quick=400, thorough=30000),
    dict(name="distances", case=distances, quick=4500, thorough=360000),
    dict(name="persistence", case=persistence, quick=1500, thorough=96000),
]
