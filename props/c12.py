"""C12 - a wavefunction object is normalised after every operation on it."""
import io
import json
import math
import os
import pathlib

import numpy as np
import sympy

from orquestra.quantum.wavefunction import (
    Wavefunction, flip_amplitudes, flip_wavefunction, load_wavefunction, save_wavefunction,
)

from vmon import gen, ref

PROPERTY = "C12"
RULE = (
    "histories of 4-40 element assignments (single index, negative index, numpy index, slices and index arrays; phases, "
    "swaps, norm-breaking values, nan, inf, symbols, out of range) and bindings (full, partial, superfluous, renaming, "
    "normalising and violating) over wavefunctions of 0-6 qubits built from lists, tuples, numpy arrays of many dtypes "
    "and numeric or symbolic sympy matrices; every live object of the history is compared after each step with a model "
    "holding its entries. All Dicke states up to 10 (14) qubits, all bit reversals up to 10 (14) qubits, all "
    "creation lengths up to 70. Identified by the history."
)
ASSUMPTIONS = [
    "the norm has to be accepted when it is 1 within 1e-9 and rejected when it is off by more than 5e-5; between, both are fine",
    "which exception an invalid assignment raises is not asserted, only that it raises",
    "values bound to symbols are compared when simultaneous and sequential substitution agree",
]

BAND_OK, BAND_BAD = 1e-9, 5e-5


def _num(e):
    """Complex value of an entry of the model, or None if it is symbolic."""
    if isinstance(e, sympy.Basic):
        if e.free_symbols:
            return None
        return ref.eval_expr(e, {})
    return complex(e)


def _verdict(entries):
    """'ok', 'bad' or 'grey' for the invariant of a list of entries."""
    nums = [_num(e) for e in entries]
    s = sum(abs(x) ** 2 for x in nums if x is not None)
    if all(x is not None for x in nums):
        if math.isnan(s) or abs(s - 1) > BAND_BAD:
            return "bad"
        return "ok" if abs(s - 1) < BAND_OK else "grey"
    if math.isnan(s):
        return "grey"
    if s > 1 + 1e-6:
        return "bad"
    return "ok" if s < 1 - 1e-9 else "grey"


class Obj:
    def __init__(self, wf, entries):
        self.wf, self.entries = wf, list(entries)

    @property
    def symbolic(self):
        return any(_num(e) is None for e in self.entries)


def _flat(x):
    return list(np.asarray(x, dtype=object).ravel())


def _snapshot(wf):
    a = wf.amplitudes
    return (len(wf), type(a).__name__, str(getattr(a, "dtype", "")), np.shape(a), [repr(x) for x in _flat(a)],
            [repr(x) for x in _flat([_flat(e) for e in wf])], sorted(map(str, wf.free_symbols)))


VALS = {}


def _values(names):
    import hashlib

    out = {}
    for s in names:
        h = int(hashlib.md5(str(s).encode()).hexdigest(), 16)
        out[s] = 0.3 + (h % 997) / 700.0
    return out


def _observe(ctx, obj, what, **w):
    """The object satisfies the invariant and holds the entries of the model."""
    wf, entries = obj.wf, obj.entries
    ctx.ev("states_observed")
    n = len(wf)
    ctx.check(n == len(entries) and n > 0 and n & (n - 1) == 0, f"{what}: number of amplitudes", n=n, want=len(entries), **w)
    ctx.check(wf.n_qubits == n.bit_length() - 1, f"{what}: number of qubits", **w)
    amps = _flat(wf.amplitudes)
    ctx.check(len(amps) == n, f"{what}: size of amplitudes", **w)
    got_syms = set(wf.free_symbols)
    want_syms = set().union(*[e.free_symbols for e in entries if isinstance(e, sympy.Basic)])
    ctx.check(got_syms == want_syms, f"{what}: free symbols", got=got_syms, want=want_syms, **w)
    at = _values(want_syms)
    want = [ref.eval_expr(e, at) for e in entries]
    got = [ref.eval_expr(a, at) for a in amps]
    ctx.close(got, want, f"{what}: amplitudes", 1e-9, **w)
    items = [ref.eval_expr(_flat(wf[i])[0], at) for i in range(n)] if n <= 8 else got
    ctx.close(items, want, f"{what}: items", 1e-9, **w)
    probs = _flat(wf.get_probabilities())
    ctx.check(len(probs) == n, f"{what}: number of probabilities", **w)
    p = [ref.eval_expr(x, at) for x in probs]
    ctx.close(p, [abs(x) ** 2 for x in want], f"{what}: probabilities", 1e-9, **w)
    nums = [_num(e) for e in entries]
    if not want_syms:
        ctx.ev("normalised_states")
        s = sum(x.real for x in p)
        ctx.check(abs(s - 1) <= BAND_BAD, f"{what}: probabilities sum to {s!r}", **w)
        ctx.check(abs(sum(abs(a) ** 2 for a in got) - 1) <= BAND_BAD, f"{what}: norm", **w)
    else:
        ctx.ev("symbolic_states")
        s = sum(abs(x) ** 2 for x in nums if x is not None)
        ctx.check(not s > 1 + 1e-6, f"{what}: numeric entries reach {s!r}", **w)


# -- initial vectors -------------------------------------------------------------


def _numeric_entries(ctx, n):
    v = gen.state(ctx, n).astype(complex)
    return [complex(x) for x in v]


def _as_input(ctx, entries):
    """The same numbers as one of the containers a user may pass."""
    rng = ctx.rng
    a = np.array(entries, dtype=complex)
    real = bool(np.all(a.imag == 0))
    kind = rng.choice(["list", "tuple", "array", "array", "matrix", "object", "real", "int", "mixed"])
    if kind == "list":
        return [complex(x) for x in a]
    if kind == "tuple":
        return tuple(complex(x) for x in a)
    if kind == "matrix":
        return gen.to_sympy(a.reshape(-1, 1)) if len(a) <= 16 else a
    if kind == "object":
        return np.array([complex(x) for x in a], dtype=object)
    if kind == "real" and real:
        return a.real.copy()
    if kind == "int" and real and np.all(a.real == np.round(a.real)):
        return a.real.astype(int)
    if kind == "mixed":
        return [sympy.Float(x.real) + sympy.I * sympy.Float(x.imag) if rng.random() < 0.3 else complex(x) for x in a]
    return a.copy()


def _symbolic_entries(ctx, n):
    """Entries with symbols, and the kind of values that normalise them."""
    rng = ctx.rng
    d = 2**n
    a, b, c = gen.symbols(rng, 3)
    kind = rng.choice(["angles", "free", "free", "scaled"])
    if kind == "angles" and d >= 2:
        head = [[sympy.cos(a), sympy.sin(a) * sympy.exp(sympy.I * b)],
                [sympy.cos(a) * sympy.I, -sympy.sin(a)],
                [sympy.cos(a) * sympy.cos(b), sympy.cos(a) * sympy.sin(b), sympy.sin(a) * sympy.cos(c), sympy.sin(a) * sympy.sin(c)]]
        h = rng.choice([x for x in head if len(x) <= d])
        entries = h + [sympy.Integer(0)] * (d - len(h))
        rng.shuffle(entries)
        return [sympy.sympify(e) for e in entries], "angles"
    room = 1.0
    entries = []
    n_sym = rng.randint(1, min(d, 3))
    syms = [a, b, c][:n_sym]
    for i in range(d - n_sym):
        if rng.random() < 0.5:
            entries.append(sympy.Integer(0))
            continue
        m = rng.uniform(0, 0.6) * room
        room -= m
        z = math.sqrt(m) * np.exp(1j * rng.uniform(0, 6.28))
        entries.append(complex(z) if rng.random() < 0.7 else sympy.Float(z.real) + sympy.I * sympy.Float(z.imag))
    for s in syms:
        e = s
        if kind == "scaled":
            e = rng.choice([2, sympy.I, sympy.Rational(1, 2), -1, sympy.exp(sympy.I * sympy.pi / 4)]) * s
            if rng.random() < 0.3:
                e = e + rng.choice([syms[0], sympy.Rational(1, 4)])
        entries.append(e)
    rng.shuffle(entries)
    return [sympy.sympify(e) for e in entries], kind


def _make(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        entries = _numeric_entries(ctx, n)
        data = _as_input(ctx, entries)
    else:
        n = rng.choice([1, 1, 2, 2, 3])
        entries = []
        while not entries or _verdict(entries) != "ok":
            entries, _ = _symbolic_entries(ctx, n)
        data = sympy.Matrix(entries) if rng.random() < 0.6 else list(entries)
        if rng.random() < 0.1:
            data = np.array(entries, dtype=object)
    assert _verdict(entries) == "ok", entries
    return Obj(Wavefunction(data), entries), data


# -- operations --------------------------------------------------------------------


def _new_value(ctx, obj, i):
    rng = ctx.rng
    old = obj.entries[i]
    x = _num(old)
    r = rng.random()
    if r < 0.3 and x is not None:
        z = x * np.exp(1j * rng.choice([math.pi, math.pi / 2, rng.uniform(0, 6.28)]))
        return complex(z)
    if r < 0.36 and x is not None:
        return x.conjugate() if rng.random() < 0.5 else complex(x)
    if r < 0.42:
        return rng.choice([float("nan"), float("inf"), complex("nan"), complex(0, float("inf"))]) if not obj.symbolic else 7.0
    if r < 0.52:
        (s,) = gen.symbols(rng, 1)
        return rng.choice([s, 2 * s, sympy.I * s, sympy.cos(s)])
    if r < 0.6:
        return rng.choice([0, 1, -1, 1j, 2, 1.5, sympy.Integer(1), sympy.sqrt(2) / 2, sympy.Rational(3, 2), sympy.Integer(0)])
    if r < 0.75:
        # exactly what is missing to 1, or a bit more
        others = [_num(e) for j, e in enumerate(obj.entries) if j != i % len(obj.entries)]
        room = 1 - sum(abs(o) ** 2 for o in others if o is not None)
        z = math.sqrt(max(room, 0)) * rng.choice([1, 1, 0.9, 1.01, 1.2, 0.5])
        return rng.choice([z, complex(0, z), np.float64(z), complex(z * np.exp(1j * rng.uniform(0, 6.28)))])
    if x is not None and r < 0.85:
        return x + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0)
    return complex(rng.uniform(-1, 1), rng.uniform(-1, 1))


def _assign(ctx, obj):
    rng = ctx.rng
    n = len(obj.entries)
    wf = obj.wf
    numpy_backed = isinstance(getattr(wf, "_amplitude_vector", wf.amplitudes), np.ndarray) and not obj.symbolic
    shape1 = np.ndim(wf.amplitudes) == 1
    r = rng.random()
    new = list(obj.entries)
    bad_index = False
    if r < 0.08 and n > 1 and numpy_backed and shape1:
        # several elements at once
        k = rng.randint(1, n - 1)
        idx = slice(0, k) if rng.random() < 0.5 else sorted(rng.sample(range(n), k))
        positions = list(range(n))[idx] if isinstance(idx, slice) else idx
        vals = [complex(obj.entries[p]) for p in positions]
        if rng.random() < 0.5:
            rng.shuffle(vals)
        else:
            vals = [v * rng.choice([1, 1j, 1.3, 0.2]) for v in vals]
        for p, v in zip(positions, vals):
            new[p] = v
        val = np.array(vals) if rng.random() < 0.5 else vals
    else:
        i = rng.randrange(n)
        if r < 0.14:
            i, bad_index = rng.choice([n, n + 3, -n - 1]), True
            val = 0.0
        else:
            val = _new_value(ctx, obj, i)
            new[i] = sympy.sympify(val) if isinstance(val, sympy.Basic) else complex(val)
        idx = i
        if not bad_index and rng.random() < 0.25:
            idx = i - n
        elif rng.random() < 0.1 and numpy_backed:
            idx = np.int64(i)
    before = _snapshot(wf)
    verdict = "bad" if bad_index else _verdict(new)
    symbol_into_numeric = not bad_index and any(_num(e) is None for e in new) and not obj.symbolic
    ctx.note("assign", idx, "<-", val, "expected", verdict)
    try:
        wf[idx] = val
        error = None
    except Exception as e:
        error = e
    w = dict(index=idx, value=val, entries=obj.entries, error=repr(error))
    if error is None:
        ctx.ev("assignments_accepted")
        ctx.check(verdict != "bad", "assignment breaking the invariant was accepted", **w)
        obj.entries = new
    else:
        ctx.ev("assignments_rejected")
        ctx.check(verdict != "ok" or symbol_into_numeric, "valid assignment was rejected", **w)
        after = _snapshot(wf)
        ctx.check(after == before, "rejected assignment changed the object", before=before, after=after, **w)


def _bind_map(ctx, obj):
    rng = ctx.rng
    syms = sorted(set().union(*[e.free_symbols for e in obj.entries if isinstance(e, sympy.Basic)]), key=str)
    kind = rng.choice(["full", "full", "normalise", "normalise", "normalise", "partial", "violate", "rename", "extra", "empty", "expr"])
    other = [s for s in map(sympy.Symbol, ["q0", "q1", "q2"]) if s not in syms]

    def value():
        v = rng.choice([rng.uniform(-0.5, 0.5), rng.uniform(-3, 3), 0, 1, 0.5, complex(rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5)),
                        np.float64(rng.uniform(-0.5, 0.5)), sympy.pi / rng.choice([2, 3, 4, 6]), sympy.Rational(1, rng.randint(2, 9))])
        return v

    m = {}
    if kind in ("full", "extra", "normalise"):
        m = {s: value() for s in syms}
        if kind == "normalise":
            m = {s: rng.uniform(-3, 3) for s in syms}
            plain = [e for e in obj.entries if isinstance(e, sympy.Symbol)]
            if plain and len(set(plain)) == len(plain) and set(plain) == set(syms):
                room = 1 - sum(abs(_num(e)) ** 2 for e in obj.entries if _num(e) is not None)
                weights = [rng.random() + 0.05 for _ in plain]
                for s, x in zip(plain, weights):
                    z = math.sqrt(max(room, 0) * x / sum(weights))
                    m[s] = complex(z * np.exp(1j * rng.uniform(0, 6.28))) if rng.random() < 0.5 else z
        if kind == "extra":
            m[sympy.Symbol("unused")] = 0.5
    elif kind == "partial" and syms:
        m = {s: value() for s in rng.sample(syms, rng.randint(0, len(syms)))}
    elif kind == "violate" and syms:
        m = {s: 5.0 for s in rng.sample(syms, rng.randint(1, len(syms)))}
    elif kind == "rename":
        m = {s: o for s, o in zip(rng.sample(syms, min(len(syms), rng.randint(0, 2))), other)}
    elif kind == "expr" and other and syms:
        m = {rng.choice(syms): rng.choice([other[0] + 1, 2 * other[0], sympy.sin(other[0])])}
    return m, kind


def _bind(ctx, obj, pool):
    m, kind = _bind_map(ctx, obj)
    wf = obj.wf
    before = _snapshot(wf)
    m_before = dict(m)
    new = []
    for e in obj.entries:
        if isinstance(e, sympy.Basic) and e.free_symbols:
            e = e.xreplace({s: sympy.sympify(v) for s, v in m.items()})
        new.append(e)
    verdict = _verdict(new)
    ctx.note("bind", m, kind, "expected", verdict)
    try:
        got, error = wf.bind(m), None
    except Exception as e:
        got, error = None, e
    w = dict(map=m_before, entries=obj.entries, error=repr(error))
    ctx.check(_snapshot(wf) == before, "binding changed the receiver", before=before, after=_snapshot(wf), **w)
    ctx.check(m == m_before, "binding changed the map", **w)
    if error is not None:
        ctx.ev("bindings_rejected")
        ctx.check(verdict != "ok", "valid binding was rejected", **w)
        return
    ctx.ev("bindings_accepted")
    ctx.check(verdict != "bad", "binding breaking the invariant was accepted", **w)
    ctx.check(isinstance(got, Wavefunction), "bind returned no wavefunction", got=got, **w)
    if got is wf:
        return
    pool.append(Obj(got, new))
    _observe(ctx, pool[-1], "bound wavefunction", **w)
    if len(pool) > 4:
        pool.pop(ctx.rng.randrange(len(pool) - 1))


def histories(ctx):
    rng = ctx.rng
    obj, data = _make(ctx)
    data_repr = repr(data)
    _observe(ctx, obj, "new wavefunction", data=data)
    ctx.check(repr(data) == data_repr, "constructor changed its argument")
    pool = [obj]
    ctx.note("start", data)
    for _ in range(rng.randint(4, 16 if not ctx.thorough else 40)):
        o = rng.choice(pool[-2:]) if rng.random() < 0.8 else rng.choice(pool)
        if o.symbolic and rng.random() < 0.45:
            _bind(ctx, o, pool)
        elif rng.random() < 0.05:
            _bind(ctx, o, pool)
        else:
            _assign(ctx, o)
        for p in pool:
            _observe(ctx, p, "after the step", trace=ctx.trace[-3:])
    final = [p for p in pool if not p.symbolic]
    if final and rng.random() < 0.5:
        _round_trip(ctx, rng.choice(final).wf)
    ctx.nontrivial(ctx.trace)
    ctx.sample(" ; ".join(ctx.trace[:8]))


def creation(ctx):
    """Accepted and rejected initial vectors."""
    rng, npr = ctx.rng, ctx.np
    kind = rng.choice(["length", "norm", "norm", "good", "symbolic_bad", "symbolic_good", "matrix_bad", "nonfinite"])
    if kind == "length":
        k = rng.choice([x for x in range(0, 71) if x & (x - 1) or x == 0])
        v = npr.normal(size=k) + 0j
        if k:
            v /= np.linalg.norm(v)
        data = rng.choice([list(v), v, tuple(v)])
        if rng.random() < 0.25 and 0 < k < 20:
            s = sympy.Symbol("a")
            data = sympy.Matrix([s] + [0] * (k - 1))
        ctx.raises(ValueError, lambda: Wavefunction(data), "vector whose length is not a power of two", length=k)
    elif kind in ("norm", "matrix_bad", "nonfinite"):
        n = rng.choice([0, 1, 2, 3, 5])
        v = np.array(_numeric_entries(ctx, n))
        if kind == "nonfinite":
            v[rng.randrange(len(v))] = rng.choice([np.nan, np.inf, 1j * np.inf])
        else:
            f = rng.choice([0, 0.5, 2, 1 + 10 ** rng.uniform(-4, -1), 1 - 10 ** rng.uniform(-4, -1), math.sqrt(2), 1e6, 1e-6])
            v = v * f
        data = gen.to_sympy(v.reshape(-1, 1)) if kind == "matrix_bad" and n <= 3 else rng.choice([v, list(v)])
        ctx.raises(ValueError, lambda: Wavefunction(data), "vector which is not normalised", data=data)
    elif kind == "good":
        n = rng.choice([0, 1, 2, 3, 5, 8])
        entries = _numeric_entries(ctx, n)
        _observe(ctx, Obj(Wavefunction(_as_input(ctx, entries)), entries), "new wavefunction", entries=entries)
        if rng.random() < 0.5 and n:
            m = rng.choice([n, n])
            z = Wavefunction.zero_state(m)
            _observe(ctx, Obj(z, [1.0] + [0.0] * (2**m - 1)), "zero state")
    else:
        n = rng.choice([1, 2, 3])
        entries, _ = _symbolic_entries(ctx, n)
        if kind == "symbolic_bad":
            j = rng.choice([i for i, e in enumerate(entries) if not all(_num(x) is not None for k, x in enumerate(entries) if k != i)] or [None])
            if j is None:
                entries = [sympy.Symbol("a"), sympy.Float(1.25)]
            else:
                entries[j] = sympy.sympify(rng.choice([1.01, -1.5, 2j, sympy.sqrt(2), 3]))
            if _verdict(entries) != "bad":
                return
            data = rng.choice([entries, sympy.Matrix(entries)])
            ctx.raises(ValueError, lambda: Wavefunction(data), "numeric entries exceeding 1", data=entries)
        elif _verdict(entries) == "ok":
            _observe(ctx, Obj(Wavefunction(rng.choice([entries, sympy.Matrix(entries)])), entries), "new wavefunction", entries=entries)
    ctx.nontrivial(kind, ctx.case_seed)


def dicke(ctx):
    """Every (n, k)."""
    pairs = [(n, k) for n in range(1, 15) for k in range(0, n + 1)]
    n, k = pairs[ctx.index]
    wf = Wavefunction.dicke_state(n, k)
    a = np.asarray(wf.amplitudes, dtype=complex).ravel()
    p = np.asarray(wf.get_probabilities(), dtype=float).ravel()
    weights = np.array([bin(i).count("1") for i in range(2**n)])
    support = weights == k
    ctx.check(len(a) == 2**n and wf.n_qubits == n, "size of a Dicke state", n=n, k=k)
    want = np.where(support, 1 / math.comb(n, k), 0.0)
    ctx.close(p, want, "probabilities of a Dicke state", 1e-12, n=n, k=k)
    ctx.check(bool(np.all((p > 0) == support)), "support of a Dicke state", n=n, k=k)
    ctx.close(np.abs(a) ** 2, want, "amplitudes of a Dicke state", 1e-12, n=n, k=k)
    if n <= 6:
        for bad in [n + 1, n + 5, -1, -n]:
            ctx.raises(ValueError, lambda: Wavefunction.dicke_state(n, bad), "impossible Hamming weight", n=n, k=bad)
    w2 = Wavefunction.dicke_state(n, k)
    ctx.check(w2 == wf, "a Dicke state built twice differs", n=n, k=k)
    ctx.ev("dicke_states")
    ctx.nontrivial(n, k)


N_DICKE_10 = sum(n + 1 for n in range(1, 11))
N_DICKE_14 = sum(n + 1 for n in range(1, 15))


def flips(ctx):
    rng, npr = ctx.rng, ctx.np
    n = ctx.index if ctx.index <= (14 if ctx.thorough else 10) else rng.randint(0, 7)
    d = 2**n
    perm = ref.bitrev_perm(n)
    v = npr.normal(size=d) + 1j * npr.normal(size=d)
    v /= np.linalg.norm(v)
    for data in [v, list(v), np.arange(d), v.real]:
        before = list(np.asarray(data))
        out = flip_amplitudes(data)
        want = np.asarray(data)[perm]
        ctx.check(np.shape(out) == (d,) and bool(np.all(np.asarray(out) == want)), "flip_amplitudes is not the bit reversal", n=n)
        ctx.check(list(np.asarray(data)) == before, "flip_amplitudes changed its argument", n=n)
        out2 = flip_amplitudes(out)
        ctx.check(bool(np.all(np.asarray(out2) == np.asarray(data))), "flipping twice is not the identity", n=n)
        np.asarray(out)[:] = 0  # a caller may do what it likes with its result
        ctx.check(list(np.asarray(data)) == before, "the result of flip_amplitudes shares memory with its argument", n=n)
    wf = Wavefunction(v.copy())
    f = flip_wavefunction(wf)
    ctx.close(f.amplitudes, v[perm], "flip_wavefunction", 1e-14, n=n)
    ctx.close(flip_wavefunction(f).amplitudes, v, "flip_wavefunction twice", 1e-14, n=n)
    ctx.close(wf.amplitudes, v, "flip_wavefunction changed its argument", 0.0, n=n)
    if n:
        k = rng.randint(0, n)
        s = Wavefunction.dicke_state(n, k)
        ctx.check(flip_wavefunction(s) == s, "flipped Dicke state differs", n=n, k=k)
    ctx.ev("flips")
    ctx.nontrivial(n, v[0])


def _round_trip(ctx, wf):
    rng = ctx.rng
    path = os.path.join(ctx.tmpdir(), "wf.json")
    before = _snapshot(wf)
    save_wavefunction(wf, pathlib.Path(path) if rng.random() < 0.5 else path)
    ctx.check(_snapshot(wf) == before, "saving changed the wavefunction")
    with open(path) as f:
        json.load(f)
    with open(path) as f:
        text = f.read()
    want = np.asarray(wf.amplitudes, dtype=complex).ravel()
    with open(path) as f:
        sources = [("str", load_wavefunction(path)), ("pathlib", load_wavefunction(pathlib.Path(path))),
                   ("open file", load_wavefunction(f)), ("text stream", load_wavefunction(io.StringIO(text)))]
    for kind, got in sources:
        a = np.asarray(got.amplitudes, dtype=complex).ravel()
        ctx.check(a.shape == want.shape and bool(np.all(a == want)), f"loaded wavefunction ({kind}) has other amplitudes",
                  want=want, got=a)
        ctx.check(len(got) == len(wf) and got.n_qubits == wf.n_qubits, f"loaded wavefunction ({kind}) has another size")
        ctx.close(np.asarray(got.get_probabilities()).ravel(), np.abs(want) ** 2, f"loaded wavefunction ({kind}) probabilities", 1e-12)
    ctx.ev("round_trips")


def files(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 5, 7])
    entries = _numeric_entries(ctx, n)
    if rng.random() < 0.2:
        entries = [x * np.exp(1j * 0.3) for x in entries]
    wf = Wavefunction(_as_input(ctx, entries))
    _round_trip(ctx, wf)
    ctx.nontrivial(entries)


def drift(ctx):
    """Long runs of tiny edits that all push the norm the same way: each alone would pass any tolerance."""
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 5])
    entries = _numeric_entries(ctx, n)
    obj = Obj(Wavefunction(_as_input(ctx, entries)), entries)
    sign = rng.choice([-1, 1])
    i = max(range(len(entries)), key=lambda j: abs(entries[j]))
    accepted = 0
    for step in range(rng.choice([30, 80, 200])):
        if rng.random() < 0.3:
            i = rng.randrange(len(entries))
        x = complex(_num(obj.entries[i]))
        z = x * (1 + sign * 10 ** rng.uniform(-8, -4.5)) if abs(x) > 1e-3 else x
        if rng.random() < 0.1:
            z = z * np.exp(1j * rng.uniform(0, 6.28))
        new = list(obj.entries)
        new[i] = complex(z)
        verdict = _verdict(new)
        before = _snapshot(obj.wf) if step % 10 == 0 or verdict == "bad" else None
        try:
            obj.wf[i] = z
        except Exception as e:
            ctx.check(verdict != "ok", "valid assignment was rejected", index=i, value=z, entries=obj.entries, error=repr(e))
            if before:
                ctx.check(_snapshot(obj.wf) == before, "rejected assignment changed the object", index=i, value=z)
            ctx.ev("drift_stopped")
            if rng.random() < 0.5:
                sign = -sign
        else:
            ctx.check(verdict != "bad", "a run of small assignments left the unit norm", index=i, value=z, accepted=accepted, entries=new)
            obj.entries = new
            accepted += 1
        if step % 25 == 0:
            _observe(ctx, obj, "during the drift")
    _observe(ctx, obj, "after the drift")
    if rng.random() < 0.3 and abs(sum(abs(x) ** 2 for x in obj.entries) - 1) < 1e-9:
        _round_trip(ctx, obj.wf)
    ctx.ev("drifts")
    ctx.nontrivial(entries, sign)


def wide(ctx):
    """Wavefunctions of 7-12 qubits: few steps, everything observed."""
    rng = ctx.rng
    n = rng.choice([7, 8, 9, 10, 11, 12] if ctx.thorough else [7, 8, 9, 10])
    entries = _numeric_entries(ctx, n)
    a = np.array(entries)
    wf = Wavefunction(a.copy() if rng.random() < 0.7 else [complex(x) for x in a])
    obj = Obj(wf, entries)
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.6:
            _assign(ctx, obj)
        elif r < 0.8:
            f = flip_wavefunction(obj.wf)
            _observe(ctx, Obj(f, [obj.entries[j] for j in ref.bitrev_perm(n)]), "flipped wide wavefunction")
            ctx.close(flip_wavefunction(f).amplitudes, obj.wf.amplitudes, "wide wavefunction flipped twice", 1e-14)
        else:
            _round_trip(ctx, obj.wf)
        _observe(ctx, obj, "wide wavefunction")
    ctx.ev("wide_histories")
    ctx.nontrivial(n, entries[:4])


def edits_and_views(ctx):
    """Flips, files, copies and probabilities interleaved with edits of the same object."""
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    obj = Obj(Wavefunction(_as_input(ctx, e := _numeric_entries(ctx, n))), e)
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if obj.symbolic:
            break
        if r < 0.5:
            _assign(ctx, obj)
            if obj.symbolic:
                break
        elif r < 0.75:
            f = flip_wavefunction(obj.wf)
            g = Obj(f, [obj.entries[j] for j in ref.bitrev_perm(n)])
            _observe(ctx, g, "flipped after edits")
            _assign(ctx, g)  # editing the result leaves the source alone
        elif r < 0.85:
            _round_trip(ctx, obj.wf)
        else:
            c = Wavefunction(np.array([complex(_num(x)) for x in obj.entries])) if _verdict(obj.entries) == "ok" else obj.wf
            _assign(ctx, Obj(c, obj.entries)) if c is not obj.wf else None  # an independent copy is edited
        _observe(ctx, obj, "after the step", trace=ctx.trace[-3:])
    ctx.ev("edit_view_histories")
    ctx.nontrivial(ctx.trace, e)


def factories(ctx):
    """Zero, Dicke and flipped states keep coming out right whatever was done to earlier ones."""
    rng = ctx.rng
    sizes = rng.sample([1, 2, 3, 4, 5, 8, 9], 2)
    pool = []
    for _ in range(rng.randint(5, 14)):
        r = rng.random()
        if r < 0.55 or not pool:
            n = rng.choice(sizes)
            k = 0 if rng.random() < 0.5 else rng.randint(0, n)
            wf = Wavefunction.zero_state(n) if k == 0 and rng.random() < 0.8 else Wavefunction.dicke_state(n, k)
            w = np.array([bin(i).count("1") for i in range(2**n)])
            if rng.random() < 0.2:
                wf = flip_wavefunction(wf)
            got = np.array(wf.amplitudes, dtype=complex).ravel()
            ctx.close(np.abs(got) ** 2, np.where(w == k, 1 / math.comb(n, k), 0.0), "state from a factory", 1e-12,
                      qubits=n, weight=k, trace=ctx.trace[-6:])
            pool.append(Obj(wf, [complex(x) for x in got]))
            _observe(ctx, pool[-1], "state from a factory", qubits=n, weight=k, trace=ctx.trace[-4:])
            ctx.note("create", n, k)
            ctx.ev("factory_states")
        else:
            o = rng.choice(pool)
            if not o.symbolic:
                _assign(ctx, o)
                if rng.random() < 0.5 and not o.symbolic:
                    # an edit that certainly works
                    i = max(range(len(o.entries)), key=lambda j: abs(o.entries[j]))
                    z = complex(o.entries[i]) * rng.choice([-1, 1j])
                    o.wf[i] = z
                    o.entries[i] = z
        for p in pool:
            _observe(ctx, p, "while states are created and edited", trace=ctx.trace[-4:])
    ctx.nontrivial(ctx.trace)


REQUIRED_EVENTS = ("factory_states", "drifts", "drift_stopped", "wide_histories", "edit_view_histories", "assignments_accepted", "assignments_rejected", "bindings_accepted", "bindings_rejected", "normalised_states",
                   "symbolic_states", "dicke_states", "flips", "round_trips")
QUICK_SCALE = 2.5
WORKLOADS = [
    dict(name="dicke", case=dicke, quick=N_DICKE_10, thorough=N_DICKE_14, fixed=True),
    dict(name="factories", case=factories, quick=120, thorough=3000),
    dict(name="drift", case=drift, quick=200, thorough=5000),
    dict(name="wide", case=wide, quick=40, thorough=600),
    dict(name="edits_and_views", case=edits_and_views, quick=500, thorough=10000),
    dict(name="histories", case=histories, quick=1500, thorough=20000),
    dict(name="creation", case=creation, quick=1500, thorough=20000),
    dict(name="flips", case=flips, quick=80, thorough=500),
    dict(name="files", case=files, quick=250, thorough=4000),
]
