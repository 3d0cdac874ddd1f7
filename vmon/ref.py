"""Independent reference models (numpy only; nothing from the library)."""
import itertools
import math

import numpy as np

PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}

# name -> (number of params, number of qubits)
BUILTINS = {
    "X": (0, 1), "Y": (0, 1), "Z": (0, 1), "H": (0, 1), "I": (0, 1),
    "S": (0, 1), "SX": (0, 1), "T": (0, 1),
    "RX": (1, 1), "RY": (1, 1), "RZ": (1, 1), "RH": (1, 1), "PHASE": (1, 1),
    "U3": (3, 1), "GPi": (1, 1), "GPi2": (1, 1), "Delay": (1, 1),
    "CNOT": (0, 2), "CZ": (0, 2), "SWAP": (0, 2), "ISWAP": (0, 2),
    "CPHASE": (1, 2), "XX": (1, 2), "YY": (1, 2), "ZZ": (1, 2), "XY": (1, 2),
    "MS": (2, 2),
}  # fmt: skip


def to_np(m):
    """Numeric matrix / vector of the library (sympy or numpy) as complex numpy."""
    if isinstance(m, np.ndarray) and m.dtype != object:
        return m.astype(complex)
    if hasattr(m, "tolist") and not isinstance(m, np.ndarray):
        rows = m.tolist()
    else:
        rows = np.asarray(m, dtype=object).tolist()

    def conv(x):
        return [conv(y) for y in x] if isinstance(x, list) else complex(x)

    return np.array(conv(rows), dtype=complex)


def subs_np(m, values):
    """Numeric value of a matrix with symbols at a substitution."""
    import sympy

    if isinstance(m, np.ndarray) and m.dtype != object:
        return m.astype(complex)
    rows = m.tolist() if hasattr(m, "tolist") else list(m)

    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        if isinstance(x, sympy.Basic):
            return eval_expr(x, values)
        return complex(x)

    return np.array(conv(rows), dtype=complex)


def eval_expr(e, values):
    """Value of a sympy expression, by our own recursion over the tree.

    Does not rely on subs(); `values` maps symbol -> complex/float.
    """
    import cmath

    import sympy

    if isinstance(e, (int, float, complex, np.number)):
        return complex(e)
    if isinstance(e, sympy.Symbol):
        return complex(values[e])
    if e.is_Number or isinstance(e, sympy.core.numbers.NumberSymbol):
        return complex(e)
    if e is sympy.I or e == sympy.I:
        return 1j
    if e.is_Add:
        return sum((eval_expr(a, values) for a in e.args), 0j)
    if e.is_Mul:
        r = 1 + 0j
        for a in e.args:
            r *= eval_expr(a, values)
        return r
    if e.is_Pow:
        b, x = eval_expr(e.args[0], values), e.args[1]
        if x.is_Integer:
            return b ** int(x)
        xv = eval_expr(x, values)
        if b == 0:
            return 0j if xv.real > 0 else complex("nan")
        return cmath.exp(xv * cmath.log(b))
    fns = {
        sympy.exp: cmath.exp, sympy.cos: cmath.cos, sympy.sin: cmath.sin,
        sympy.tan: cmath.tan, sympy.Abs: abs, sympy.sqrt: cmath.sqrt,
        sympy.conjugate: lambda z: z.conjugate(),
        sympy.re: lambda z: complex(z.real), sympy.im: lambda z: complex(z.imag),
        sympy.log: cmath.log, sympy.cosh: cmath.cosh, sympy.sinh: cmath.sinh,
    }  # fmt: skip
    if e.func in fns:
        return complex(fns[e.func](eval_expr(e.args[0], values)))
    return complex(e.subs(values, simultaneous=True))


def apply_matrix(state, u, qubits, n):
    """Apply a k-qubit matrix to qubits (qubit 0 = most significant bit).

    `state` has shape (2**n,) or (2**n, m).
    """
    k = len(qubits)
    state = np.asarray(state, dtype=complex)
    tail = state.shape[1:]
    t = state.reshape((2,) * n + tail)
    u = np.asarray(u, dtype=complex).reshape((2,) * (2 * k))
    t = np.tensordot(u, t, axes=(list(range(k, 2 * k)), list(qubits)))
    # axes 0..k-1 are now the gate's qubits, in the order of `qubits`
    t = np.moveaxis(t, list(range(k)), list(qubits))
    return t.reshape((2**n,) + tail)


def circuit_matrix(steps, n):
    """steps: [(matrix, qubits)] in program order."""
    m = np.eye(2**n, dtype=complex)
    for u, qubits in steps:
        m = apply_matrix(m, u, qubits, n)
    return m


def embed(u, qubits, n):
    return circuit_matrix([(u, qubits)], n)


def pauli_matrix(ops, n):
    """ops: {qubit: letter}; qubit 0 is the leftmost Kronecker factor."""
    m = np.ones((1, 1), dtype=complex)
    for q in range(n):
        m = np.kron(m, PAULI[ops.get(q, "I")])
    return m


def sum_matrix(terms, n):
    """terms: [(coefficient, {qubit: letter})]."""
    m = np.zeros((2**n, 2**n), dtype=complex)
    for c, ops in terms:
        m = m + complex(c) * pauli_matrix(ops, n)
    return m


_MUL = {}


def _fill():
    for a, b in itertools.product("IXYZ", repeat=2):
        p = PAULI[a] @ PAULI[b]
        for c in "IXYZ":
            for ph in (1, 1j, -1, -1j):
                if np.allclose(p, ph * PAULI[c]):
                    _MUL[a, b] = (ph, c)


_fill()


def mul_terms(a, b):
    """Product of two symbolic terms (coefficient, {q: letter}), exactly."""
    c = complex(a[0]) * complex(b[0])
    ops = dict(a[1])
    for q, letter in b[1].items():
        ph, res = _MUL[ops.get(q, "I"), letter]
        c *= ph
        if res == "I":
            ops.pop(q, None)
        else:
            ops[q] = res
    return c, ops


def canon(terms):
    """{frozenset of (qubit, letter): coefficient} of a list of terms."""
    out = {}
    for c, ops in terms:
        k = frozenset((q, p) for q, p in ops.items() if p != "I")
        out[k] = out.get(k, 0) + complex(c)
    return out


def lib_terms(op):
    """Terms of a library operator as [(coefficient, {qubit: letter})]."""
    out = []
    for t in op.terms:
        out.append((complex(t.coefficient), {int(q): p for q, p in t.operations}))
    return out


def bit(index, q, n):
    return (index >> (n - 1 - q)) & 1


def bits(index, n):
    return tuple(bit(index, q, n) for q in range(n))


def bitrev_perm(n):
    return [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2**n)]


def is_unitary(m, tol=1e-9):
    return bool(np.allclose(m @ m.conj().T, np.eye(len(m)), atol=tol))


def global_phase_distance(a, b):
    """min over phase of max |a - e^{i f} b|."""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    ov = np.vdot(b, a)
    ph = ov / abs(ov) if abs(ov) > 1e-12 else 1.0
    return float(np.max(np.abs(a - ph * b))) if a.size else 0.0


def rz(a):
    return np.diag([np.exp(-0.5j * a), np.exp(0.5j * a)])


def ry(a):
    c, s = math.cos(a / 2), math.sin(a / 2)
    return np.array([[c, -s], [s, c]], dtype=complex)


def expm_pauli(theta, ops, n):
    """exp(-i theta P)."""
    d = 2**n
    return math.cos(theta) * np.eye(d) - 1j * math.sin(theta) * pauli_matrix(ops, n)
