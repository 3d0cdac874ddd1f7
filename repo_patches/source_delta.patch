From 6a97d2caac0361e0b4693b6f4dfe96bf1dd9a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 01/48] fix: Circuit.to_unitary of a circuit without operations
 is the identity

---
 src/orquestra/quantum/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..576c8c2 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,9 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits, dtype=complex)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From ed9bf5a69cd2ef0aee9305083d4e0565d3b24f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 02/48] fix: Circuit.controlled keeps the width of the
 controlled register

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 576c8c2..3946ee1 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -191,7 +191,7 @@ class Circuit:
             new_indices_with_control = (control_index, *new_indices)
             c_ops.append(controlled_op(*new_indices_with_control))
 
-        return Circuit(c_ops)
+        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)
 
 
 @singledispatch
-- 
2.43.0


From dcc9321b18de916f0ec9bf6fbd67347f623883b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 03/48] fix: bind symbols in expressions simultaneously

---
 src/orquestra/quantum/circuits/_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_operations.py b/src/orquestra/quantum/circuits/_operations.py
index 284598f..cd725a6 100644
--- a/src/orquestra/quantum/circuits/_operations.py
+++ b/src/orquestra/quantum/circuits/_operations.py
@@ -74,7 +74,8 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    # Substitution has to be simultaneous, the values may comprise symbols from the map.
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From d919d2b0c577a619893b72ee6a20191829af9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 04/48] fix: substitute custom gate parameters simultaneously

---
 src/orquestra/quantum/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 6e69e8b..7961e24 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -514,7 +514,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 8db9ccebee5c68f5c9986b554ab0213b000f8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 05/48] fix: make ResetOperation.bind and replace_params work

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..087c1f7 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from functools import singledispatch
 from numbers import Complex
 from typing import Iterable, Tuple
@@ -105,7 +105,9 @@ class ResetOperation:
         )
 
     def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
-        return replace(self, params=new_params)
+        new_operation = ResetOperation(*self.qubit_indices)
+        new_operation.params = new_params
+        return new_operation
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         raise RuntimeError(
-- 
2.43.0


From 98b460b88403be1f68708b2ec5d60933190294bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 06/48] fix: collect definitions of custom gates nested in gate
 wrappers

---
 src/orquestra/quantum/circuits/_circuit.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 3946ee1..d24e388 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,16 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    """Strip the gate of all the wrappers (control, dagger, power, exponential)."""
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,9 +105,9 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in (_innermost_gate(op.gate) for op in self.operations)
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From 64f2e39373db4274d89d4a769b9e4c550c689c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 07/48] fix: deserialize params of custom gates using symbols
 of the given gate

---
 src/orquestra/quantum/circuits/_serde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..90c0c15 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -283,9 +283,11 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
     return gate_def(
-        *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
+        *[
+            deserialize_expr(param, dict_.get("free_symbols", []))
+            for param in dict_.get("params", [])
+        ]
     )
 
 
-- 
2.43.0


From db40fe5950d7415053c58284528b1b48b2ea0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 08/48] fix: deserialize expressions with any symbol names

---
 src/orquestra/quantum/circuits/_serde.py | 46 ++++++++++++------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 90c0c15..90c737c 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Iterable, List, Mapping
 
 import sympy
 
@@ -17,28 +17,30 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
-
-
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    # Symbol names might not be parsable as a single identifier (e.g. "x[4]", such names
+    # occur in circuits imported from Qiskit, parameterized using a ParameterVector) or
+    # might have a special meaning for `sympify` (e.g. "Integer", "cos"). Therefore
+    # symbols are substituted with unambiguous placeholders before parsing.
+    symbols_map = {name: f"_symbol_{i}_" for i, name in enumerate(symbol_names)}
+
+    if symbols_map:
+        # Name followed by a parenthesis is a function call and not a symbol.
+        names_pattern = "|".join(
+            re.escape(name) for name in sorted(symbols_map, key=len, reverse=True)
+        )
+        expr_str = re.sub(
+            rf"(?<![\w.])({names_pattern})(?![\w\[(])",
+            lambda match: symbols_map[match.group(1)],
+            expr_str,
+        )
+
+    return sympy.sympify(
+        expr_str,
+        locals={
+            placeholder: sympy.Symbol(name) for name, placeholder in symbols_map.items()
+        },
+    )
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From bd38b8ff4ec81e5a266bac0e1b028a274568e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 09/48] fix: serialize expressions mixing constants with
 symbols of the same name

---
 src/orquestra/quantum/circuits/_serde.py | 34 ++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 90c737c..122a658 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -7,13 +7,29 @@ from functools import singledispatch
 from typing import Iterable, List, Mapping
 
 import sympy
+from sympy.printing.str import StrPrinter
 
 from ..typing import DumpTarget, LoadSource
 from ..utils import ensure_open
 from . import _builtin_gates, _circuit, _gates
 
 
-def serialize_expr(expr: sympy.Expr):
+class _ConstantsAsCallsPrinter(StrPrinter):
+    """Printer of expressions comprising symbols named like mathematical constants."""
+
+    def _print_ImaginaryUnit(self, expr):
+        return "sqrt(-1)"
+
+    def _print_Exp1(self, expr):
+        return "exp(1)"
+
+    def _print_Pi(self, expr):
+        return "acos(-1)"
+
+
+def serialize_expr(expr: sympy.Expr, symbol_names: Iterable[str] = ()):
+    if not {"I", "E", "pi"}.isdisjoint(symbol_names):
+        return _ConstantsAsCallsPrinter().doprint(expr)
     return str(expr)
 
 
@@ -47,9 +63,9 @@ def builtin_gate_by_name(name):
     return _builtin_gates.builtin_gate_by_name(name)
 
 
-def _matrix_to_json(matrix: sympy.Matrix):
+def _matrix_to_json(matrix: sympy.Matrix, symbol_names: Iterable[str]):
     return [
-        [serialize_expr(element) for element in matrix.row(row_i)]
+        [serialize_expr(element, symbol_names) for element in matrix.row(row_i)]
         for row_i in range(matrix.shape[0])
     ]
 
@@ -129,23 +145,25 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
 
 @to_dict.register
 def _basic_gate_to_dict(gate: _gates.MatrixFactoryGate):
+    symbol_names = sorted(map(str, gate.free_symbols))
     return {
         "name": gate.name,
-        **({"params": _map_eager(serialize_expr, gate.params)} if gate.params else {}),
         **(
-            {"free_symbols": sorted(map(str, gate.free_symbols))}
-            if gate.free_symbols
+            {"params": [serialize_expr(param, symbol_names) for param in gate.params]}
+            if gate.params
             else {}
         ),
+        **({"free_symbols": symbol_names} if symbol_names else {}),
     }
 
 
 @to_dict.register
 def _custom_gate_def_to_dict(gate_def: _gates.CustomGateDefinition):
+    symbol_names = _map_eager(str, gate_def.params_ordering)
     return {
         "gate_name": gate_def.gate_name,
-        "matrix": _matrix_to_json(gate_def.matrix),
-        "params_ordering": _map_eager(serialize_expr, gate_def.params_ordering),
+        "matrix": _matrix_to_json(gate_def.matrix, symbol_names),
+        "params_ordering": symbol_names,
     }
 
 
-- 
2.43.0


From b7f2bd9b097a19cba98da2af6bd4a55ba2b6f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 10/48] fix: serialize circuits with numpy integers as qubit
 indices

---
 src/orquestra/quantum/circuits/_serde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 122a658..634d369 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -104,7 +104,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -139,7 +139,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
-- 
2.43.0


From 7b98eb4c7b283901462f735dcab9816b0db69d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 11/48] fix: look up custom gates before the names in scope of
 the builtin gates module

---
 src/orquestra/quantum/circuits/_serde.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 634d369..7759c71 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -230,6 +230,13 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
+    # Custom gate names may coincide with any name in scope of `_builtin_gates`, hence
+    # the custom gates that came with the circuit have to be looked up first.
+    if "wrapped_gate" not in dict_ and any(
+        gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs
+    ):
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
+
     try:
         return _builtin_gate_from_dict(dict_)
     except KeyError:
-- 
2.43.0


From 14d85762baaabbb2dd0dd6ccd55c2be009acc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 12/48] fix: compute exponentials of gates with diagonal
 matrices

---
 src/orquestra/quantum/circuits/_gates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 7961e24..11ba7a7 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -389,7 +389,11 @@ class Exponential(Gate):
 
     @property
     def matrix(self) -> sympy.Matrix:
-        return self.wrapped_gate.matrix.exp()
+        matrix = self.wrapped_gate.matrix
+        if matrix.is_diagonal():
+            # The general algorithm is intractable for some diagonal matrices, e.g. T.
+            return sympy.diag(*[sympy.exp(element) for element in matrix.diagonal()])
+        return matrix.exp()
 
     @property
     def params(self) -> Tuple[Parameter, ...]:
-- 
2.43.0


From d87b9325f2962c545f04f96402786fc5c4bac8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 13/48] fix: decompositions keep the width of the decomposed
 circuit

---
 .../quantum/decompositions/_orquestra_decompositions.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 88f626a..bdf60e9 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -46,4 +46,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_orquestra_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From f728f207e7441c54ad924d2cb23810edd63ee132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 14/48] fix: keep non-gate operations when decomposing U3 gates

---
 .../quantum/decompositions/_orquestra_decompositions.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index bdf60e9..4016d54 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -17,7 +17,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
+        return isinstance(operation, GateOperation) and (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
             and operation.gate.wrapped_gate.name == "U3"
-- 
2.43.0


From a843692cc305a6bebde0deca4fdf09e6e89be061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 15/48] fix: compare Pauli sums by values of coefficients
 instead of rounded hashes

---
 .../quantum/operators/_pauli_operators.py     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..b2f0a51 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -395,6 +395,24 @@ class PauliTerm:
         return 0 if self.is_constant else max(self.qubits) + 1
 
 
+def _all_terms_included(pauli_sum: "PauliSum", another_sum: "PauliSum") -> bool:
+    """Whether each term of the first sum is (approximately) equal to one of the second.
+
+    Hashes of terms can't be used here, as they might differ for almost equal terms.
+    """
+    terms_by_operations: Dict[Hashable, List[PauliTerm]] = {}
+    for term in another_sum.terms:
+        terms_by_operations.setdefault(term.operations, []).append(term)
+
+    return all(
+        any(
+            term == another_term
+            for another_term in terms_by_operations.get(term.operations, [])
+        )
+        for term in pauli_sum.terms
+    )
+
+
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
@@ -448,7 +466,7 @@ class PauliSum:
 
         if isinstance(other, (int, float, complex)):
             constant_term = PauliTerm("I0", complex(other))
-            return self == PauliSum([constant_term])
+            return self == constant_term
 
         if isinstance(other, PauliTerm):
             if len(self) == 0:
@@ -459,7 +477,7 @@ class PauliSum:
         if len(self) != len(other):
             return False
 
-        return set(self.terms) == set(other.terms)
+        return _all_terms_included(self, other) and _all_terms_included(other, self)
 
     def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
         _validate_type(other)
-- 
2.43.0


From 81b209f0006cb828c48f639fd1dbfbce4642e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 16/48] fix: parse constant Pauli terms the way they are
 printed

---
 src/orquestra/quantum/operators/_pauli_operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index b2f0a51..419e414 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,6 +120,10 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    if operators_strs == ["I"]:
+        # Constant terms are printed without an index of a qubit, e.g. "2.0*I"
+        return coef, {}
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
-- 
2.43.0


From 591d4694eed0099d97c490f6d4f5d6e84e605cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 17/48] fix: convert the empty Pauli sum to a sparse zero
 matrix

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..fba6b34 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -96,6 +96,9 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
         column_list.append(column)
         row_list.append(row)
 
+    if not values_list:
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
+
     # Create sparse operator.
     values_list = numpy.concatenate(values_list)
     row_list = numpy.concatenate(row_list)
-- 
2.43.0


From 665aea3951edf6ddecb3215076a0af6216b79ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 18/48] fix: expand 1x1 matrices in the Pauli basis

---
 src/orquestra/quantum/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..71f44a6 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -73,6 +73,9 @@ def dec2bin(number: int, length: int) -> List[int]:
             "Insufficient number of bits for representing the number {}".format(number)
         )
 
+    if length == 0 and number == 0:
+        return []
+
     bit_str = bin(number)
     bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
     bit_string = [int(x) for x in list(bit_str)]
-- 
2.43.0


From 455369ffaee0b5033460a8174d6268571b831882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 19/48] fix: compute expectation values from measurements of no
 qubits

---
 src/orquestra/quantum/measurements/measurements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..7332257 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -32,10 +32,11 @@ def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
 
 def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
     """Converts bitstrings to vector so parity can be checked."""
-    n_qubits = len([*bitstrings][0])
+    bitstrings = [*bitstrings]
+    n_qubits = len(bitstrings[0])
     all_bits = "".join(bitstrings)
     bitstring_1d_array = np.frombuffer(all_bits.encode("utf-8"), "u1") - ord("0")
-    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)
+    return bitstring_1d_array.astype(int).reshape(len(bitstrings), n_qubits)
 
 
 def get_expectation_value_from_frequencies(
-- 
2.43.0


From ede6d33ab939526449b621add6a3e45cf1ee3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 20/48] fix: count parities in an empty set of measurements

---
 src/orquestra/quantum/measurements/parities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..675a6b2 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -154,7 +154,11 @@ def get_parities_from_measurements(
 
     # Count number of occurrences of bitstrings
     bitstring_frequencies = Counter(measurements)
-    bitstrings_vector = np.array([*bitstring_frequencies.keys()])
+    bitstrings_vector = (
+        np.array([*bitstring_frequencies.keys()])
+        if bitstring_frequencies
+        else np.zeros((0, ising_operator.n_qubits), dtype=int)
+    )
     bitstring_counts: np.ndarray = np.fromiter(
         bitstring_frequencies.values(), dtype=int
     )
-- 
2.43.0


From bac099d24ae46e19ecc020f0cfcd092de1bcb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 21/48] fix: keep empty lists of frames when saving expectation
 values and parities

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index 675a6b2..7089662 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From 2da6bed3068c1a4ea587d6ae6c0d20d4f804e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 22/48] fix: expand sample sizes using integer arithmetic

---
 src/orquestra/quantum/circuits/_itertools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..fa6be1c 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,7 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From 66faab32ffc6a78ea95eed5534be02f70421a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 23/48] fix: scale and discretize values exactly for large
 totals

---
 src/orquestra/quantum/utils.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 71f44a6..b60041f 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -4,9 +4,11 @@
 """General-purpose utilities."""
 import collections
 import json
+import math
 import os
 import sys
 from contextlib import contextmanager
+from fractions import Fraction
 from functools import lru_cache
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
@@ -496,19 +498,21 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
-    # Note: combining the two lines below breaks type checking; see mypy #6040
-    value_sum = sum(values)
-    scale_factor = total / value_sum
-
-    result = [np.floor(value * scale_factor) for value in values]
-    remainders = [
-        value * scale_factor - np.floor(value * scale_factor) for value in values
+    # Rational arithmetic is used, because precision of floats is not sufficient for
+    # large totals.
+    fractions = [
+        Fraction(value if isinstance(value, int) else float(value)) for value in values
     ]
-    indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
-    for index in range(int(round(total - sum(result)))):
-        result[indexes_sorted_by_remainder[index]] += 1
-
-    result = [int(value) for value in result]
+    fractions_sum = sum(fractions)
+    scaled_values = [value * total / fractions_sum for value in fractions]
+
+    result = [math.floor(value) for value in scaled_values]
+    remainders = [value - floor for value, floor in zip(scaled_values, result)]
+    indexes_sorted_by_remainder = sorted(
+        range(len(remainders)), key=remainders.__getitem__, reverse=True
+    )
+    for index in indexes_sorted_by_remainder[: total - sum(result)]:
+        result[index] += 1
 
     assert sum(result) == total, "The scaled list does not sum to the desired total."
 
-- 
2.43.0


From abbff3c6a19b669dd892da22b1ba63caef0b790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 24/48] fix: load artefacts from any path, not only from a
 string

---
 src/orquestra/quantum/circuits/layouts.py     | 23 +++++++------------
 .../_measurement_outcome_distribution.py      | 15 ++++--------
 .../quantum/measurements/measurements.py      | 13 ++++++-----
 src/orquestra/quantum/operators/_io.py        | 15 ++++--------
 src/orquestra/quantum/utils.py                | 14 ++++-------
 5 files changed, 29 insertions(+), 51 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..be58b2f 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -6,6 +6,8 @@ from typing import Dict, List, TextIO, Tuple
 
 import numpy as np
 
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -52,11 +54,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +81,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +130,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..92b197b 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -12,6 +12,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 import numpy as np
 
 from ..typing import AnyPath
+from ..utils import ensure_open
 
 
 class MeasurementOutcomeDistribution:
@@ -306,11 +307,8 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     try:
         distribution = MeasurementOutcomeDistribution(data["bitstring_distribution"])
@@ -333,11 +331,8 @@ def load_measurement_outcome_distributions(
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     distribution_list = []
     for i in range(len(data["measurement_outcome_distribution"])):
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 7332257..f7a7587 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -13,7 +13,11 @@ import numpy as np
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
 from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -214,11 +218,8 @@ class Measurements:
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index b60041f..79840f1 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -337,11 +337,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -369,11 +366,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
-- 
2.43.0


From 42bc6d517a57b0bcc105a6f0ce103cf49ab99751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 25/48] fix: load estimates of number of measurements saved
 without frames or given as a file

---
 src/orquestra/quantum/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 79840f1..31345d5 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -456,22 +456,28 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: LoadSource,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
-        filename: the name of the file
+        filename: the name of the file, or a file-like object.
 
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group) or None
+            if they were not saved
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    # This entry is not saved if the number of measurements per frame is not known
+    frame_meas = (
+        convert_dict_to_array(data["frame_meas"]) if "frame_meas" in data else None
+    )
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 69d7c834d11cc7764d5ec7f31016307b9f4892d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 26/48] fix: outcomes of measuring no qubits are empty

---
 src/orquestra/quantum/wavefunction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..7b22ab3 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -206,8 +206,12 @@ class Wavefunction:
         return np.abs(self.amplitudes) ** 2
 
     def get_outcome_probs(self) -> Dict[str, float]:
+        n_qubits = self.n_qubits
+        # The only outcome of measuring no qubits is an empty string, whereas format
+        # always gives at least one digit.
         values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
+            format(i, f"0{n_qubits}b")[::-1] if n_qubits > 0 else ""
+            for i in range(len(self))
         ]
 
         probs = self.get_probabilities()
-- 
2.43.0


From f871b632541191a21ce4739961d52b56f2195698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 27/48] fix: leave wavefunction untouched when an assignment is
 rejected

---
 src/orquestra/quantum/wavefunction.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 7b22ab3..191c0e6 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -94,7 +94,9 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            probs_of_ground_entries = np.sum(
+                np.abs(np.asarray(arr, dtype=np.complex128)) ** 2
+            )
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
@@ -119,16 +121,18 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        # Validate the assignment on a copy, so that a rejected assignment does not
+        # affect amplitudes.
+        new_vector = self._amplitude_vector.copy()
+        new_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector[idx] = val
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 38b51b700fcb2d0c3c456431bf2bb586ace9c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 28/48] fix: reject non-positive number of samples for an empty
 batch

---
 src/orquestra/quantum/api/circuit_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index f12edeb..1234242 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -160,6 +160,8 @@ class BaseCircuitRunner(ABC, CircuitRunner):
             dedicated way of running circuits' batch, `_run_batch_and_measure`
             method.
         """
+        if isinstance(n_samples, int) and n_samples <= 0:
+            raise ValueError(f"Number of samples has to be positive, got {n_samples}")
         samples_per_circuit = (
             len(circuits_batch) * [n_samples]
             if isinstance(n_samples, int)
-- 
2.43.0


From 10d16a65f8518be1302a73fe6c5d256311f3f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 29/48] fix: do not count rejected batches as executed in
 MeasurementTrackingBackend

---
 src/orquestra/quantum/runners/trackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..58a99bc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
-- 
2.43.0


From a6effe2ab8e00dbcd44ece9111961dbce2231c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 30/48] fix: sum all terms of constant operators in not
 measured estimation tasks

---
 src/orquestra/quantum/estimation/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..06d5924 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,7 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum((term.coefficient for term in task.operator.terms), 0.0)
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From a35f33b327723b346c53be80fa30da89b4e0eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 31/48] fix: reject coefficients with negative imaginary parts
 in time evolution

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 911386a..6308a95 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -66,7 +66,7 @@ def time_evolution_for_term(term: PauliTerm, time: Union[float, sympy.Expr]) ->
     if term.is_constant:
         return circuit
 
-    if term.coefficient.imag > 1e-9:
+    if abs(term.coefficient.imag) > 1e-9:
         raise ValueError("Coefficients of terms must be real for Trotterization.")
 
     for i, qubit_id in enumerate(qubit_indices):
-- 
2.43.0


From d17059308428f5ac6a756e6845e8968cc5202f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 32/48] fix: use the right step size in derivatives of
 multi-step time evolution

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 6308a95..1e616f6 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -140,7 +140,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", n_steps=1
+            hamiltonian, time / n_steps, method="Trotter", n_steps=1
         )
 
         for position in range(n_steps):
-- 
2.43.0


From 3c697f440561ef36ee53f443eebd801d0876ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 33/48] fix: differentiate time evolution under Hamiltonians
 with zero terms

---
 src/orquestra/quantum/evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 1e616f6..5cc386d 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -125,7 +125,8 @@ def time_evolution_derivatives(
                 )
             r = term_1.coefficient.real / n_steps
             output_factors.append(r * factor)
-            shift = factor * (np.pi / (4.0 * r))
+            # The derivative with respect to a zero term vanishes, whatever the shift
+            shift = factor * (np.pi / (4.0 * r)) if r != 0 else 0.0
 
             for j, term_2 in enumerate(terms):
                 output += time_evolution_for_term(
-- 
2.43.0


From f11ba35e5c1f239b872fc9af2baad774fd8b8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 34/48] fix: subdistribution does not empty its source and
 supports multi-digit outcomes

---
 .../distributions/_measurement_outcome_distribution.py   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 92b197b..bf77146 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -101,11 +100,9 @@ class MeasurementOutcomeDistribution:
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
-            new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+        for key, value in self.distribution_dict.items():
+            new_key = tuple(key[i] for i in active_qubits)
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From 932c9783eb9ef584c20700f48087a289acf1a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 35/48] fix: save distributions of a single subsystem with
 multi-digit outcomes

---
 .../_measurement_outcome_distribution.py            | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index bf77146..532946d 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -113,7 +113,9 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            # Trailing comma denotes, as in Python, a sequence comprising one integer
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -244,11 +246,18 @@ def normalize_measurement_outcome_distribution(
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
 
+def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
+    # A single integer of several digits has to be told apart from a bitstring
+    if len(key) == 1 and key[0] > 9:
+        return f"{key[0]},"
+    return ",".join(map(str, key))
+
+
 def save_measurement_outcome_distribution(
     distribution: MeasurementOutcomeDistribution, filename: AnyPath
 ) -> None:
-- 
2.43.0


From b5876e8fd4122cb7e5ed7b719553cc275a08cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 36/48] fix: compute MMD of distributions on many qubits and of
 non-binary outcomes

---
 src/orquestra/quantum/distributions/mmd.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..43f3214 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,7 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
-from typing import TYPE_CHECKING, Dict, Sequence
+from typing import TYPE_CHECKING, Dict, Sequence, Tuple
 
 import numpy as np
 
@@ -48,7 +48,8 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    # Differences of integers are squared as floats, because they could overflow
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -75,7 +76,8 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    # Differences of integers are squared as floats, because they could overflow
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -87,6 +89,13 @@ def compute_multi_rbf_kernel(
     return kernel_matrix / len(sigmas)
 
 
+def _digits_to_int(digits: Tuple[int, ...], base: int) -> int:
+    result = 0
+    for digit in digits:
+        result = result * base + int(digit)
+    return result
+
+
 def compute_mmd(
     target_distribution: "MeasurementOutcomeDistribution",
     measured_distribution: "MeasurementOutcomeDistribution",
@@ -122,9 +131,10 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
-    basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+    base = max(2, 1 + max(int(max(item, default=0)) for item in all_keys))
+    codes = [_digits_to_int(item, base) for item in all_keys]
+    # Codes of long outcomes don't fit in numpy integers
+    basis = np.array(codes, dtype=np.int64 if max(codes) < 2**62 else object)
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From eba1d78203966c705bda1b3eb46007776c0d315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 37/48] fix: normalize distributions with weights whose sum
 overflows

---
 .../_measurement_outcome_distribution.py              | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 532946d..020648d 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -227,6 +227,17 @@ def normalize_measurement_outcome_distribution(
             are floats.
     """
     norm = sum(measurement_outcome_distribution.values())
+    if math.isinf(norm):
+        largest = max(measurement_outcome_distribution.values())
+        if math.isinf(largest):
+            raise ValueError(
+                "Normalization of MeasurementOutcomeDistribution FAILED:"
+                " input dict contains infinite values."
+            )
+        # The values are finite but their sum is not, so they have to be scaled down
+        for key in measurement_outcome_distribution:
+            measurement_outcome_distribution[key] /= largest
+        norm = sum(measurement_outcome_distribution.values())
     if norm == 0:
         raise ValueError(
             "Normalization of MeasurementOutcomeDistribution FAILED:"
-- 
2.43.0


From 77ed26ac8e580f81739b0fd9f60aa1760cee6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 38/48] fix: natural sort keys of symbols with digits which are
 not decimal

---
 src/orquestra/quantum/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/_sorting.py b/src/orquestra/quantum/circuits/symbolic/_sorting.py
index 65b461a..af5d757 100644
--- a/src/orquestra/quantum/circuits/symbolic/_sorting.py
+++ b/src/orquestra/quantum/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 353f94dc7c61f1bce616f93df3129b251caa7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 39/48] fix: refuse undefined functions named like the
 supported ones

---
 .../quantum/circuits/symbolic/sympy_expressions.py         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 3ae36bc..084af98 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -8,6 +8,7 @@ from numbers import Number
 
 import sympy
 import sympy.core
+from sympy.core.function import AppliedUndef
 
 try:
     # for sympy>=1.6 - import the module as usual
@@ -122,6 +123,12 @@ def function_call_from_sympy_function(function: sympy.Function):
     return FunctionCall(str(function.func), expression_from_sympy(function.args))
 
 
+@expression_from_sympy.register
+def refuse_undefined_function(function: AppliedUndef):
+    # Undefined function might share its name with one of the supported functions.
+    raise NotImplementedError(f"Undefined function {function} is not supported")
+
+
 @expression_from_sympy.register
 def expression_tuple_from_tuple_of_sympy_args(args: tuple):
     return tuple(expression_from_sympy(arg) for arg in args)
-- 
2.43.0


From 4ad56ab9d49ad1cfb5e1124720fdbd21ec28e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 40/48] fix: numeric amplitudes of wavefunctions whose symbols
 were all replaced

---
 src/orquestra/quantum/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 191c0e6..bcedefb 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -73,7 +73,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, Matrix):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
-- 
2.43.0


From b47853a628b9377b82eca129509a2d92fff86b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 41/48] fix: deserialize floating point parameters exactly

---
 src/orquestra/quantum/circuits/_serde.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 7759c71..9dc96da 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -3,6 +3,7 @@
 ################################################################################
 import json
 import re
+from decimal import Decimal
 from functools import singledispatch
 from typing import Iterable, List, Mapping
 
@@ -51,13 +52,29 @@ def deserialize_expr(expr_str, symbol_names):
             expr_str,
         )
 
-    return sympy.sympify(
+    expr = sympy.sympify(
         expr_str,
         locals={
             placeholder: sympy.Symbol(name) for name, placeholder in symbols_map.items()
         },
     )
 
+    return _rounded_like_python_float(expr, expr_str)
+
+
+def _rounded_like_python_float(expr: sympy.Expr, expr_str: str):
+    """Correct rounding of Python floats, which sympy parses with a precision dependent
+    on the number of digits. Other expressions are returned unchanged."""
+    if isinstance(expr, sympy.Float):
+        try:
+            number = float(expr_str)
+        except ValueError:
+            return expr
+        if Decimal(expr_str) == Decimal(repr(number)):
+            return sympy.Float(number, precision=expr._prec)
+
+    return expr
+
 
 def builtin_gate_by_name(name):
     return _builtin_gates.builtin_gate_by_name(name)
-- 
2.43.0


From 52c8045a13d2b4f0e865717630581ad58dcae5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 42/48] fix: tally pair parities correctly for unsigned integer
 bits

---
 src/orquestra/quantum/measurements/parities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index 7089662..5a5cc39 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -181,7 +181,7 @@ def get_parities_from_measurements(
             parity2 = check_parity_of_vector(bitstrings_vector, term2.qubits)
 
             # 0 if parities are equal, 1 otherwise
-            equal_parities = np.abs(parity1 - parity2)
+            equal_parities = (parity1 != parity2).astype(int)
 
             # Counts of bitstrings where parity is equal
             correlations[0][term1_index, term2_index][0] += (
-- 
2.43.0


From 3281e89f8f133ccb7c3a2b0d5e4323021e4929be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 43/48] fix: save distributions whose probabilities are numpy
 numbers

---
 .../distributions/_measurement_outcome_distribution.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 020648d..35bba80 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -288,7 +288,7 @@ def save_measurement_outcome_distribution(
 
     dictionary["measurement_outcome_distribution"] = preprocessed_distribution_dict
     with open(filename, "w") as f:
-        f.write(json.dumps(dictionary, indent=2))
+        f.write(json.dumps(dictionary, indent=2, default=float))
 
 
 def save_measurement_outcome_distributions(
@@ -312,7 +312,7 @@ def save_measurement_outcome_distributions(
         )
 
     with open(filename, "w") as f:
-        f.write(json.dumps(dictionary, indent=2))
+        f.write(json.dumps(dictionary, indent=2, default=float))
 
 
 def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
-- 
2.43.0


From b033afce081a9f2ae26760bbf4eee1fa0ec3bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 44/48] fix: translate subtracted expressions without rewriting
 them

---
 src/orquestra/quantum/circuits/symbolic/sympy_expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 084af98..a3f7f0d 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -78,7 +78,9 @@ def native_imaginary_unit_from_sympy_imaginary_unit(
 
 
 def _negate_sympy_expr(expr):
-    return expr * (-1)
+    # The leading factor of expr is -1. Evaluating the product anew could rewrite the
+    # other factors, e.g. exp(1) into E, which is not supported.
+    return sympy.Mul(*expr.args[1:], evaluate=False)
 
 
 @expression_from_sympy.register
-- 
2.43.0


From 1f088d87292450a5ab502ef9d0415855a747850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:10 +0000
Subject: [PATCH 45/48] fix: refuse user-defined functions named like supported
 ones

---
 .../quantum/circuits/symbolic/sympy_expressions.py     | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index a3f7f0d..706219e 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -8,7 +8,6 @@ from numbers import Number
 
 import sympy
 import sympy.core
-from sympy.core.function import AppliedUndef
 
 try:
     # for sympy>=1.6 - import the module as usual
@@ -122,15 +121,12 @@ def power_from_sympy_pow(power: sympy.Pow):
 
 @expression_from_sympy.register
 def function_call_from_sympy_function(function: sympy.Function):
+    if function.func is not getattr(sympy, str(function.func), None):
+        # User-defined function might share its name with a supported function.
+        raise NotImplementedError(f"Function {function} is not supported")
     return FunctionCall(str(function.func), expression_from_sympy(function.args))
 
 
-@expression_from_sympy.register
-def refuse_undefined_function(function: AppliedUndef):
-    # Undefined function might share its name with one of the supported functions.
-    raise NotImplementedError(f"Undefined function {function} is not supported")
-
-
 @expression_from_sympy.register
 def expression_tuple_from_tuple_of_sympy_args(args: tuple):
     return tuple(expression_from_sympy(arg) for arg in args)
-- 
2.43.0


From f5ee7d70e2789052a13c8a308465fd189c056abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 46/48] fix: count measured bits given as booleans

---
 src/orquestra/quantum/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 31345d5..07045a2 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -260,7 +260,8 @@ def tuple_to_bitstring(tup: Tuple[int, ...]) -> str:
     Returns:
         A string with binary digits
     """
-    return "".join(map(str, tup))
+    # Bits are cast, because e.g. True and 1 are the same key of the cache.
+    return "".join(str(int(bit)) for bit in tup)
 
 
 class ValueEstimate(float):
-- 
2.43.0


From 16267f628b98d52ae52c005fbb619fce9eefc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 47/48] fix: parse sums whose coefficients are printed with a
 positive exponent

---
 src/orquestra/quantum/operators/_pauli_operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 419e414..81b6d83 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -420,7 +420,11 @@ def _all_terms_included(pauli_sum: "PauliSum", another_sum: "PauliSum") -> bool:
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
-            terms = [PauliTerm(s.strip()) for s in re.split(r"\+(?![^(]*\))", terms)]
+            # Sign of an exponent (e.g. in 1e+20*X0) doesn't separate terms
+            terms = [
+                PauliTerm(s.strip())
+                for s in re.split(r"(?<![0-9.][eE])\+(?![^(]*\))", terms)
+            ]
         if terms is None:
             # If no terms is given, the PauliSum has a value of zero.
             terms = []
-- 
2.43.0


From d8ffcdbef2934768c6534834c4acf3c1df19dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 48/48] fix: custom gate definitions with matrices of different
 shapes are not equal

---
 src/orquestra/quantum/circuits/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 11ba7a7..7eec7ba 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -607,7 +607,7 @@ def _are_matrix_elements_equal(element, another_element):
 
 
 def _are_matrices_equal(matrix, another_matrix):
-    return all(
+    return matrix.shape == another_matrix.shape and all(
         _are_matrix_elements_equal(element, another_element)
         for element, another_element in zip(matrix, another_matrix)
     )
-- 
2.43.0

