"""C11 - operators and result artefacts survive dict, file and text round trips."""
import io
import itertools
import json
import os
import pathlib

import numpy as np

from orquestra.quantum.circuits import layouts as L
from orquestra.quantum.measurements import ExpectationValues, Measurements, Parities
from orquestra.quantum.measurements import expectation_values as EV
from orquestra.quantum.measurements import parities as PA
from orquestra.quantum.operators import (
    PauliSum, PauliTerm, convert_dict_to_op, convert_op_to_dict,
    load_operator, load_operator_set, save_operator, save_operator_set,
)
from orquestra.quantum import utils as U

from vmon import gen, ref

PROPERTY = "C11"
RULE = (
    "random Pauli terms and sums (0-12 terms; qubit indices of up to 7 digits; coefficients int/float/complex/numpy, "
    "signed zeros, purely real/imaginary, 1e-300..1e300, subnormal, exact products and sums), operator lists; random "
    "measurement sets, value arrays with 0..4 real or complex frames, tallies, estimates, nested lists, layers, "
    "connectivity, orderings, measurement-count estimates; all sums of at most 2 terms over a pool of 1-qubit terms and "
    "all terms over a pool of coefficients exhaustively. Each artefact goes through real JSON text and a real file, "
    "loaded by str path, pathlib path and open file. Oracle: exact comparison of the terms as (operators, real, imag), "
    "and of the operator's Pauli coefficients; exact equality of artefacts. Identified by the artefact."
)
ASSUMPTIONS = [
    "matrices are compared through their (unique) Pauli expansion, 1e-8 per term plus 2e-15 relative per term",
    "arrays of shape (0, 0) are not generated (JSON does not distinguish them from (0,))",
    "non-finite numbers are not generated",
]

POOL = [
    0, -0.0, 0.0, 1, -1, 2, 1.0, -1.0, 0.5, -0.25, 0.1, -0.1, 1 / 3, 1e-5, -1e-5, 1e-7, 2.5e-8, -2.5e-8, 1e-9, 1e-12,
    5e-324, 1e-300, 123456789, -987654321012345, 1e14, 9.99e14, -1e14, 1e14 + 0.5, 0.1 + 0.2, 2**49, 1e5, 1e6, 12345.678,
    1j, -1j, 1e-5j, -1e-7j, 0.5j, -0.25j, complex(0, -0.0), complex(-0.0, 1), complex(-0.0, -0.0), complex(1, -0.0),
    1 + 1j, 1 - 1j, -1 + 1j, -1 - 1j, complex(1e-5, -1e-5), complex(-1e-6, 1e6), complex(1e14, -1e-5), complex(3, 0),
    complex(-3, 0), complex(0.1, 0.2), complex(1 / 3, -1e-7), complex(-2e-8, -2e-8), complex(1e-9, 1), complex(1, 1e-9),
    1e-16, complex(1, 1e-16), complex(1e-16, -1), 1e16, -1e16, 1e22, 1.5e300, -2.25e20, 10**17, complex(1e20, 1e-3), complex(-1e-3, 1e25),
    complex(1e18, -1e18), True,
]  # fmt: skip


def _coefficient(rng):
    r = rng.random()
    if r < 0.35:
        c = rng.choice(POOL[:-1])
    elif r < 0.75:
        c = gen.coefficient(rng)
    elif r < 0.9:
        c = rng.choice([-1, 1]) * 10 ** rng.uniform(-20, 14.9 if rng.random() < 0.8 else 40)
        if rng.random() < 0.5:
            c = complex(c, rng.choice([-1, 1]) * 10 ** rng.uniform(-20, 14.9 if rng.random() < 0.8 else 40))
        if rng.random() < 0.2:
            c = complex(0, c.real)
    else:
        c = rng.randint(-(10**15) + 1, 10**15 - 1)
    r = rng.random()
    if r < 0.06 and not isinstance(c, complex):
        c = np.float64(c)
    elif r < 0.1:
        c = np.complex128(c)
    return c


def _qubits(rng):
    r = rng.random()
    if r < 0.5:
        return list(range(rng.randint(1, 5)))
    if r < 0.8:
        return rng.sample(range(0, 130), rng.randint(1, 8))
    return rng.sample([0, 1, 9, 10, 11, 99, 100, 101, 110, 999, 1000, 10**4, 123456, 10**6, 9999999], rng.randint(1, 6))


def _term(rng, qubits, coefficient=None):
    qs = rng.sample(qubits, rng.randint(0, len(qubits)) if rng.random() < 0.8 else rng.randint(0, min(1, len(qubits))))
    ops = [(rng.choice("XYZ"), q) for q in qs]
    c = _coefficient(rng) if coefficient is None else coefficient
    r = rng.random()
    if r < 0.4:
        return PauliTerm({q: p for p, q in ops}, c)
    if r < 0.8:
        return PauliTerm.from_iterable(ops, c)
    t = PauliTerm.identity() if rng.random() < 0.5 else PauliTerm({})
    for p, q in ops:
        t = t * PauliTerm({q: p})
    return t.copy(new_coefficient=c)


def _sum(rng, qubits=None, n_terms=None):
    qubits = qubits or _qubits(rng)
    terms = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12] * 4 + [30, 90]) if n_terms is None else n_terms):
        if terms and rng.random() < 0.2:
            terms.append(rng.choice(terms).copy(new_coefficient=_coefficient(rng)))
        else:
            terms.append(_term(rng, qubits))
    return PauliSum(terms)


def _operator(rng):
    r = rng.random()
    if r < 0.25:
        return _term(rng, _qubits(rng))
    if r < 0.7:
        return _sum(rng)
    a, b = _sum(rng, qubits=[0, 1, 12]), _sum(rng, qubits=[0, 1, 12])
    if r < 0.8:
        return a + b
    if r < 0.9:
        return a - b
    small = lambda: PauliSum([_term(rng, [0, 1, 12], coefficient=gen.coefficient(rng)) for _ in range(rng.randint(0, 3))])  # noqa: E731
    return small() * small()


def _is_simplified(op):
    seen = set()
    for c, ops in ref.lib_terms(op):
        k = frozenset(ops.items())
        if k in seen or abs(c) < 1.5e-8:
            return False
        seen.add(k)
    return True


def _key(op):
    return repr([(complex(c), sorted(o.items())) for c, o in ref.lib_terms(op)])


def _typeok(ctx, got, what, **w):
    ctx.check(isinstance(got, (PauliSum, PauliTerm)), f"{what}: not an operator", got=got, **w)
    for c, ops in [(t.coefficient, t.operations) for t in got.terms]:
        for q, p in ops:
            ctx.check(isinstance(q, int) and p in ("X", "Y", "Z"), f"{what}: malformed term", got=got, **w)


def _same_operator(ctx, got, op, what, exact=None, **w):
    """got denotes the same matrix as op; exactly the same terms if op is simplified."""
    _typeok(ctx, got, what, operator=op, **w)
    want, have = ref.canon(ref.lib_terms(op)), ref.canon(ref.lib_terms(got))
    n = len(op.terms)
    biggest = max([0.0] + [abs(c) for c, _ in ref.lib_terms(op)])
    tol = 1.01e-8 * max(1, n) + 2e-15 * max(1, n) * biggest
    for k in set(want) | set(have):
        ctx.check(abs(want.get(k, 0) - have.get(k, 0)) <= tol, f"{what}: another operator", operator=op, got=got,
                  term=sorted(k), want=want.get(k, 0), have=have.get(k, 0), **w)
    if _is_simplified(op) if exact is None else exact:
        ctx.ev("exact_operators")
        a = sorted((sorted(o.items()), c.real, c.imag) for c, o in ref.lib_terms(op))
        b = sorted((sorted(o.items()), c.real, c.imag) for c, o in ref.lib_terms(got))
        ctx.check(a == b, f"{what}: terms are not preserved exactly", operator=op, terms=a, got=b, **w)


def _snapshot(op):
    return [(repr(t.coefficient), sorted(t.operations)) for t in op.terms]


def _open_sources(ctx, path, load, name):
    """Load from every kind of source the interface offers."""
    results = [("str path", load(path)), ("pathlib path", load(pathlib.Path(path)))]
    with open(path) as f:
        results.append(("open file", load(f)))
    with open(path) as f:
        results.append(("text stream", load(io.StringIO(f.read()))))
    ctx.ev("loads", len(results))
    return results


def _path(ctx, name="artefact.json"):
    p = os.path.join(ctx.tmpdir(), name)
    return p


def _save(ctx, save, obj, path):
    save(obj, pathlib.Path(path) if ctx.rng.random() < 0.4 else path)
    with open(path) as f:
        text = f.read()
    json.loads(text)  # real JSON
    ctx.ev("saves")


def _check_dict(ctx, op):
    before = _snapshot(op)
    d = convert_op_to_dict(op)
    _same_operator(ctx, convert_dict_to_op(d), op, "dict round trip")
    text = json.dumps(d)
    _same_operator(ctx, convert_dict_to_op(json.loads(text)), op, "dict round trip through JSON text", json=text)
    ctx.check(_snapshot(op) == before, "conversion changed the operator", before=before, after=op)
    again = convert_op_to_dict(convert_dict_to_op(json.loads(text)))
    if _is_simplified(op):
        _same_operator(ctx, convert_dict_to_op(again), op, "two dict round trips")


def _check_text(ctx, op):
    text = str(op)
    if isinstance(op, PauliTerm):
        _same_operator(ctx, PauliTerm(text), op, "text round trip of a term", exact=False, text=text)
        _same_operator(ctx, PauliSum(text), op, "text round trip of a term as a sum", exact=False, text=text)
    else:
        back = PauliSum(text)
        _same_operator(ctx, back, op, "text round trip of a sum", exact=False, text=text)
        if len(op.terms) == 1:
            _same_operator(ctx, PauliTerm(text), op, "text round trip of a sum of one term", text=text)
    ctx.ev("texts")


def operators(ctx):
    rng = ctx.rng
    op = _operator(rng)
    ctx.note("operator", op)
    _check_dict(ctx, op)
    _check_text(ctx, op)
    if isinstance(op, PauliSum):
        s = op.simplify()
        _check_dict(ctx, s)
        _check_text(ctx, s)
    ctx.nontrivial(_key(op))
    ctx.sample(op)


def operator_files(ctx):
    rng = ctx.rng
    op = _operator(rng)
    if rng.random() < 0.5 and isinstance(op, PauliSum):
        op = op.simplify()
    path = _path(ctx)
    _save(ctx, save_operator, op, path)
    for kind, got in _open_sources(ctx, path, load_operator, "load_operator"):
        _same_operator(ctx, got, op, f"save_operator/load_operator from {kind}")
    ops = [_operator(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    if ops and rng.random() < 0.3:
        ops.append(ops[0])
    if ops and rng.random() < 0.4:  # neighbours that are almost, but not quite, equal
        i = rng.randrange(len(ops))
        o, e = ops[i], rng.choice([1e-12, 1e-9, 1e-7, 3e-6, 1e-3])
        near = [t.copy(t.coefficient * (1 + e * rng.choice([1, -1, 1j]))) if rng.random() < 0.6 else t for t in o.terms]
        ops.insert(i + rng.randint(0, 1), near[0] if isinstance(o, PauliTerm) else PauliSum(near))
    _save(ctx, save_operator_set, ops, path)  # overwrites a (possibly longer) file
    for kind, got in _open_sources(ctx, path, load_operator_set, "load_operator_set"):
        ctx.check(len(got) == len(ops), f"load_operator_set from {kind}: number of operators", operators=ops, got=got)
        for i, (g, o) in enumerate(zip(got, ops)):
            _same_operator(ctx, g, o, f"operator {i} of load_operator_set from {kind}")
    ctx.nontrivial(_key(op), [_key(o) for o in ops])
    ctx.sample(op, "list of", len(ops))


PAIRS = list(itertools.product(range(len(POOL)), ["", "X0", "Y3", "Z12", "X0*Y1", "Z10*X2*Y301"]))


def _fixed_term(text, c):
    ops = {}
    for s in text.split("*"):
        if s:
            ops[int(s[1:])] = s[0]
    return PauliTerm(ops, c)


def pool_terms(ctx):
    """Every coefficient of the pool on every shape, alone and in sums."""
    i, shape = PAIRS[ctx.index % len(PAIRS)]
    t = _fixed_term(shape, POOL[i])
    if POOL[i] is not True:
        _check_text(ctx, t)
        _check_text(ctx, PauliSum([t]))
        _check_text(ctx, PauliSum([t, PauliTerm({5: "Y"}, 2.0)]))
        _check_text(ctx, PauliSum([PauliTerm({5: "Y"}, -1 - 2j), t]))
        _check_text(ctx, PauliSum([t, PauliTerm({}, 1j), t]))
    _check_dict(ctx, t)
    _check_dict(ctx, PauliSum([t, PauliTerm({5: "Y"}, 2.0)]))
    _check_dict(ctx, PauliSum([PauliTerm({5: "Y"}, -1 - 2j), t]))
    _check_dict(ctx, PauliSum([PauliTerm({}, 1j), t]))
    ctx.nontrivial(i, shape)


# -- artefacts -----------------------------------------------------------------


def _same_array(ctx, got, want, what, **w):
    ctx.ev("arrays")
    ctx.check(isinstance(got, np.ndarray), f"{what}: not an array", got=got, **w)
    ctx.check(got.shape == np.shape(want), f"{what}: shape {got.shape} instead of {np.shape(want)}", **w)
    if got.size:
        ctx.check(bool(np.all(got == want)), f"{what}: other values", got=got, want=want, **w)
        ctx.check(np.iscomplexobj(got) == np.iscomplexobj(want), f"{what}: dtype {got.dtype} instead of {np.asarray(want).dtype}", **w)


def _same_frames(ctx, got, want, what, **w):
    if want is None:
        ctx.check(got is None, f"{what}: appeared", got=got, **w)
        return
    ctx.check(got is not None and len(got) == len(want), f"{what}: number of frames", got=got, want=want, **w)
    for i, (g, x) in enumerate(zip(got, want)):
        _same_array(ctx, g, x, f"{what} frame {i}", **w)


def _array(ctx, shape, kind=None):
    rng, npr = ctx.rng, ctx.np
    kind = kind or rng.choice(["float", "float", "complex", "complex", "int", "zeros", "cplx0", "imag", "f32", "wide"])
    if kind == "int":
        return npr.integers(-(10**6), 10**6, size=shape)
    if kind == "zeros":
        return np.zeros(shape)
    if kind == "cplx0":
        return np.zeros(shape, dtype=complex)
    if kind == "imag":
        return 1j * npr.normal(size=shape)
    if kind == "f32":
        return npr.normal(size=shape).astype(np.float32)
    if kind == "wide":
        return npr.choice([-1, 1], size=shape) * 10.0 ** npr.uniform(-300, 300, size=shape)
    a = npr.normal(size=shape)
    if kind == "complex":
        a = a + 1j * npr.normal(size=shape)
        if a.size and rng.random() < 0.3:
            a = a.real + 0j
    return a


def _frames(ctx):
    rng = ctx.rng
    n = rng.choice([None, None, 0, 1, 1, 2, 4])
    if n is None:
        return None
    out = []
    for _ in range(n):
        k = rng.choice([1, 2, 3, 4, 4, 12, 33])
        if out and rng.random() < 0.15:
            out.append(out[-1])
        else:
            out.append(_array(ctx, (k, k)))
    return out


def expectation_values(ctx):
    rng = ctx.rng
    k = rng.choice([0, 1, 1, 2, 3, 7, 40, 150])
    ev = ExpectationValues(_array(ctx, (k,)), _frames(ctx), _frames(ctx))
    path = _path(ctx)
    _save(ctx, EV.save_expectation_values, ev, path)
    d = ev.to_dict()
    results = _open_sources(ctx, path, EV.load_expectation_values, "load_expectation_values")
    results.append(("dict", ExpectationValues.from_dict(d)))
    results.append(("JSON text", ExpectationValues.from_dict(json.loads(json.dumps(d)))))
    for kind, got in results:
        w = dict(values=ev.values, correlations=ev.correlations, covariances=ev.estimator_covariances)
        _same_array(ctx, got.values, ev.values, f"expectation values from {kind}", **w)
        _same_frames(ctx, got.correlations, ev.correlations, f"correlations from {kind}", **w)
        _same_frames(ctx, got.estimator_covariances, ev.estimator_covariances, f"covariances from {kind}", **w)
    ctx.nontrivial(repr((ev.values, ev.correlations, ev.estimator_covariances)))
    ctx.sample("values", ev.values, "corr", ev.correlations)


def parities(ctx):
    rng, npr = ctx.rng, ctx.np
    k = rng.choice([0, 1, 2, 3, 5, 60])
    values = npr.integers(0, rng.choice([2, 10**6, 10**6, 2**33, 2**53]), size=(k, 2)) if k else np.zeros((0,), dtype=int)
    if rng.random() < 0.3:
        values = values.astype(float)
    frames = None
    if rng.random() < 0.7:
        frames = [npr.integers(0, 10**5, size=(m, m, 2)).astype(rng.choice([int, float]))
                  for m in [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 1, 2]))]]
    if rng.random() < 0.3:
        shots = [tuple(int(x) for x in r) for r in npr.integers(0, 2, size=(rng.randint(1, 20), 3))]
        p = PA.get_parities_from_measurements(shots, gen.ising_sum(rng, 3, rng.randint(1, 4)))
    else:
        p = Parities(values, frames)
    path = _path(ctx)
    _save(ctx, PA.save_parities, p, path)
    results = _open_sources(ctx, path, PA.load_parities, "load_parities")
    results.append(("dict", Parities.from_dict(json.loads(json.dumps(p.to_dict())))))
    for kind, got in results:
        _same_array(ctx, got.values, p.values, f"parities from {kind}", values=p.values)
        _same_frames(ctx, got.correlations, p.correlations, f"parity correlations from {kind}", values=p.values)
    ctx.nontrivial(repr((p.values, p.correlations)))
    ctx.sample("values", p.values)


def measurement_sets(ctx):
    rng, npr = ctx.rng, ctx.np
    n, w = rng.choice([0, 0, 1, 2, 5, 40, 300, 300, 1100, 5000]), rng.choice([0, 1, 2, 3, 5, 12, 70])
    shots = [tuple(int(x) for x in r) for r in npr.integers(0, 2, size=(n, w))]
    if rng.random() < 0.3:
        shots = [rng.choice(shots[:2]) for _ in shots]
    if rng.random() < 0.2:
        m = Measurements([tuple(np.int8(x) for x in b) for b in shots])
    elif n == 0 and rng.random() < 0.5:
        m = Measurements()
    else:
        m = Measurements(list(shots))
    path = _path(ctx)
    m.save(pathlib.Path(path) if rng.random() < 0.5 else path)
    ctx.ev("saves")
    with open(path) as f:
        json.load(f)
    for kind, got in _open_sources(ctx, path, Measurements.load_from_file, "load_from_file"):
        ctx.check(isinstance(got, Measurements), f"measurements from {kind}: type", got=got)
        ctx.check(got.bitstrings == shots, f"measurements from {kind}: other bitstrings", shots=shots[:6], got=got.bitstrings[:6],
                  n=n, got_n=len(got.bitstrings))
        ctx.check(all(type(b) is tuple for b in got.bitstrings), f"measurements from {kind}: bitstrings are not tuples",
                  got=got.bitstrings[:3])
        ctx.check(got.get_counts() == m.get_counts(), f"measurements from {kind}: other counts")
    ctx.check([tuple(b) for b in m.bitstrings] == shots, "saving changed the measurements")
    ctx.nontrivial(shots)
    ctx.sample(n, "shots of width", w)


def _json_value(rng, depth):
    r = rng.random()
    if depth and r < 0.3:
        return [_json_value(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    return rng.choice([
        rng.randint(-(10**20), 10**20), rng.uniform(-1, 1), rng.choice([-1, 1]) * 10 ** rng.uniform(-300, 300), None, True,
        False, "", "naïve \"quoted\" \\ text\n", "01", 0, -0.0, 5e-324, 0.1 + 0.2, {"a": [1, 2.5]},
    ])


def estimates_and_lists(ctx):
    rng = ctx.rng
    # value estimates
    v = rng.choice([0, -1, 3.5, -0.0, 1e-300, 1e300, 10**12, rng.uniform(-5, 5), np.float64(rng.uniform(-5, 5)), np.float32(0.25)])
    p = rng.choice([None, 0, 0.0, 1, 0.5, 1e-12, 1e200, rng.uniform(0, 1), np.float64(rng.uniform(0, 1)), np.float32(0.125), np.int64(3)])
    est = U.ValueEstimate(v, p) if p is not None or rng.random() < 0.5 else U.ValueEstimate(v)
    path = _path(ctx)
    _save(ctx, U.save_value_estimate, est, path)
    results = _open_sources(ctx, path, U.load_value_estimate, "load_value_estimate")
    results.append(("dict", U.ValueEstimate.from_dict(json.loads(json.dumps(est.to_dict())))))
    for kind, got in results:
        ctx.check(isinstance(got, U.ValueEstimate), f"value estimate from {kind}: type", got=got)
        ctx.check(float(got) == float(v), f"value estimate from {kind}: value", value=v, got=float(got))
        ctx.check((got.precision is None) == (p is None) and got.precision == p, f"value estimate from {kind}: precision",
                  precision=p, got=got.precision)
        ctx.check(got == est and est == got and not got != est, f"value estimate from {kind}: not equal", value=v, precision=p)
    # lists
    items = [_json_value(rng, 3) for _ in range(rng.choice([0, 1, 2, 5, 9, 200]))]
    before = repr(items)
    _save(ctx, U.save_list, items, path)
    for kind, got in _open_sources(ctx, path, U.load_list, "load_list"):
        ctx.check(type(got) is list and got == items and repr(got) == before, f"list from {kind}", items=items, got=got)
    # measurement-count estimates
    K, nterms = rng.choice([0, 0.0, 1.5, 10**9, 1e-9, rng.uniform(0, 1e6)]), rng.randint(0, 10**4)
    frame = None if rng.random() < 0.3 else _array(ctx, (rng.choice([0, 1, 2, 6]),), rng.choice(["float", "int", "complex", "wide", "zeros"]))
    sv = pathlib.Path(path) if rng.random() < 0.5 else path
    if frame is None and rng.random() < 0.5:
        U.save_nmeas_estimate(K, nterms, sv)
    elif rng.random() < 0.5:
        U.save_nmeas_estimate(K, nterms, sv, frame)
    else:
        U.save_nmeas_estimate(nmeas=K, nterms=nterms, filename=sv, frame_meas=frame)
    ctx.ev("saves")
    for kind, got in _open_sources(ctx, path, U.load_nmeas_estimate, "load_nmeas_estimate"):
        ctx.check(len(got) == 3, f"estimate from {kind}: parts", got=got)
        ctx.check(got[0] == K and got[1] == nterms, f"estimate from {kind}", want=(K, nterms), got=got[:2])
        if frame is None:
            ctx.check(got[2] is None, f"estimate from {kind}: frames appeared", got=got[2])
        else:
            _same_array(ctx, got[2], frame, f"frames of the estimate from {kind}")
    ctx.nontrivial(repr((v, p, items, K, nterms, frame)))
    ctx.sample("estimate", v, p, "list", items)


def layouts(ctx):
    rng = ctx.rng

    def group():
        return tuple(rng.sample(range(rng.choice([4, 30, 2000])), rng.choice([1, 2, 2, 2, 3])))

    layers = [[group() for _ in range(rng.choice([0, 1, 2, 4]))] for _ in range(rng.choice([0, 1, 2, 3, 6, 40]))]
    conn = [group() for _ in range(rng.choice([0, 1, 3, 8, 120]))]
    ordering = rng.sample(range(50), rng.choice([0, 1, 2, 8, 40]))
    if rng.random() < 0.3:
        n = rng.randint(1, 12)
        if rng.random() < 0.5:
            c, l = L.build_circuit_layers_and_connectivity(n)
        else:
            c, l = L.build_circuit_layers_and_connectivity(rng.randint(1, 4), rng.randint(2, 5), layer_type="sycamore")
        layers, conn = l.layers, c.connectivity
    path = _path(ctx)
    obj = L.CircuitLayers(layers)
    want_layers, want_conn = [list(l) for l in layers], list(conn)
    _save(ctx, L.save_circuit_layers, obj, path)
    for kind, got in _open_sources(ctx, path, L.load_circuit_layers, "load_circuit_layers"):
        ctx.check(isinstance(got, L.CircuitLayers) and got.layers == want_layers, f"layers from {kind}", want=want_layers, got=got.layers)
    ctx.check(obj.layers == want_layers, "saving changed the layers")
    got = L.CircuitLayers.from_dict(json.loads(json.dumps(obj.to_dict())))
    ctx.check(got.layers == want_layers, "layers from a dict", want=want_layers, got=got.layers)
    cobj = L.CircuitConnectivity(conn)
    _save(ctx, L.save_circuit_connectivity, cobj, path)
    for kind, got in _open_sources(ctx, path, L.load_circuit_connectivity, "load_circuit_connectivity"):
        ctx.check(isinstance(got, L.CircuitConnectivity) and got.connectivity == want_conn, f"connectivity from {kind}",
                  want=want_conn, got=got.connectivity)
    _save(ctx, L.save_circuit_ordering, ordering, path)
    for kind, got in _open_sources(ctx, path, L.load_circuit_ordering, "load_circuit_ordering"):
        ctx.check(got == ordering, f"ordering from {kind}", want=ordering, got=got)
    ctx.nontrivial(repr((want_layers, want_conn, ordering)))
    ctx.sample("layers", want_layers, "ordering", ordering)


def array_dicts(ctx):
    rng = ctx.rng
    shape = rng.choice([(0,), (1,), (3,), (2, 3), (1, 1), (2, 2, 2), (4, 1), (1500,), (40, 30)])
    a = _array(ctx, shape)
    before = a.copy()
    d = json.loads(json.dumps(U.convert_array_to_dict(a)))
    _same_array(ctx, U.convert_dict_to_array(d), before, "array round trip", shape=shape)
    ctx.check(np.array_equal(a, before), "conversion changed the array")
    ctx.nontrivial(repr(before))


REQUIRED_EVENTS = ("oracle", "exact_operators", "texts", "saves", "loads", "arrays")
QUICK_SCALE = 2.5
WORKLOADS = [
    dict(name="pool_terms", case=pool_terms, quick=len(PAIRS), thorough=len(PAIRS), fixed=True),
    dict(name="operators", case=operators, quick=4000, thorough=90000),
    dict(name="operator_files", case=operator_files, quick=1200, thorough=20000),
    dict(name="expectation_values", case=expectation_values, quick=700, thorough=12000),
    dict(name="parities", case=parities, quick=500, thorough=9000),
    dict(name="measurement_sets", case=measurement_sets, quick=500, thorough=9000),
    dict(name="estimates_and_lists", case=estimates_and_lists, quick=700, thorough=12000),
    dict(name="layouts", case=layouts, quick=500, thorough=9000),
    dict(name="array_dicts", case=array_dicts, quick=600, thorough=9000),
]
