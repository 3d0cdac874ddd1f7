"""Deep snapshots of the publicly observable state of values and results."""
import collections.abc
import dataclasses
import math

import numpy as np
import scipy.sparse
import sympy

from orquestra.quantum import circuits as C
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.circuits import layouts
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import ExpectationValues, Measurements, Parities
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.utils import ValueEstimate
from orquestra.quantum.wavefunction import Wavefunction

_SREPR = {}


def _expr(e):
    # structurally equal expressions print alike, apart from 1 == 1.0
    key = (e, type(e), str(e))
    s = _SREPR.get(key)
    if s is None:
        if len(_SREPR) > 20000:
            _SREPR.clear()
        s = _SREPR[key] = sympy.srepr(e)
    return s


def snap(x):
    """A value that is equal before and after iff nothing observable changed."""
    t = type(x).__name__
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, ValueEstimate):
        return (t, repr(float(x)), snap(x.precision))
    if isinstance(x, (int, np.integer)):
        return (t, int(x))
    if isinstance(x, (float, complex, np.number)):
        return (t, x.item() if isinstance(x, np.number) else x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ndarray", x.shape, tuple(snap(i) for i in x.ravel()), x.flags.writeable)
        return ("ndarray", x.shape, x.dtype.str, np.array(x, copy=True), x.flags.writeable)
    if scipy.sparse.issparse(x):
        return (t, x.shape, snap(x.toarray()))
    if isinstance(x, sympy.MatrixBase):
        return (t, x.shape, tuple(_expr(e) for e in x))
    if isinstance(x, sympy.Basic):
        return _expr(x)
    if isinstance(x, C.Circuit):
        return (t, snap(x.n_qubits), tuple(snap(o) for o in x.operations))
    if isinstance(x, C.ResetOperation):
        return (t, snap(x.qubit_indices), snap(x.params))
    if isinstance(x, C.CustomGateDefinition):
        return (t, x.gate_name, snap(x.matrix), snap(x.params_ordering))
    if isinstance(x, PauliTerm):
        return (t, snap(x.coefficient), tuple(sorted(map(repr, x.operations))), repr(x), len(x), hash(x))
    if isinstance(x, PauliSum):
        return (t, type(x.terms).__name__, tuple(snap(i) for i in x.terms), len(x), hash(x))
    if isinstance(x, Measurements):
        return (t, snap(x.bitstrings))
    if isinstance(x, MeasurementOutcomeDistribution):
        return (t, snap(x.distribution_dict))
    if isinstance(x, Wavefunction):
        return (t, len(x), tuple(snap(a) for a in x), snap(x.amplitudes), snap(x.free_symbols))
    if isinstance(x, (ExpectationValues, Parities, layouts.CircuitLayers, layouts.CircuitConnectivity)):
        return (t, tuple((k, snap(v)) for k, v in sorted(vars(x).items())))
    if isinstance(x, EstimationTask):
        return (t, snap(x.operator), snap(x.circuit), snap(x.number_of_shots))
    if isinstance(x, C.MatrixFactoryGate):
        definition = getattr(x.matrix_factory, "gate_definition", None)
        factory = snap(definition) if definition is not None else id(x.matrix_factory)
        return (t, x.name, factory, snap(x.params), x.num_qubits, x.is_hermitian)
    if dataclasses.is_dataclass(x):
        return (t, tuple((f.name, snap(getattr(x, f.name))) for f in dataclasses.fields(x)))
    if isinstance(x, dict):
        return (t, tuple((snap(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (t, tuple(snap(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return (t, tuple(sorted((snap(i) for i in x), key=repr)))
    if isinstance(x, collections.abc.Collection) and not isinstance(x, type):
        return (t, tuple(snap(i) for i in x))
    if callable(x):
        return ("callable", id(x))
    return (t, repr(x))


def same(a, b, tol=0.0):
    """Snapshots equal, floats up to tol (relative, at least absolute)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if tol == 0.0:
            return a.tobytes() == b.tobytes()
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(i, j, tol) for i, j in zip(a, b))
    if isinstance(a, (float, complex)):
        if repr(a) == repr(b):
            return True
        if tol == 0.0 or a != a or b != b:
            return False
        return abs(a - b) <= tol * max(1.0, abs(a)) if not _inf(a) else a == b
    return a == b


def _inf(z):
    z = complex(z)
    return math.isinf(z.real) or math.isinf(z.imag)


def diff(a, b, path=""):
    """Where two snapshots first differ."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, f"{path}.{i}")
    return f"at {path or 'top'}: {str(a)[:300]} -> {str(b)[:300]}"
