From 7974b44579416a44f0dcee430401edbb7d92908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 01/98] fix: unitary of a circuit without operations is the
 identity

---
 src/python/zquantum/core/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..c83053a 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -121,6 +121,9 @@ class Circuit:
         For performance reasons, this method will construct numpy matrix if circuit does
         not have free parameters, and a sympy matrix otherwise.
         """
+        if not self.operations:
+            return np.eye(2**self.n_qubits, dtype=complex)
+
         # The `reversed` iterator reflects the fact the matrices are multiplied
         # when composing linear operations (i.e. first operation is the rightmost).
         lifted_matrices = [
-- 
2.43.0


From 4a4bbec0e3a59289e45480cd56b7654f61013054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 02/98] fix: substitute all parameters of a custom gate
 simultaneously

---
 src/python/zquantum/core/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..c2f085c 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -357,7 +357,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 1e84724eef1e215d22a8fae2e8824c85a02b2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 03/98] fix: bind all symbols of a parameter expression
 simultaneously

---
 src/python/zquantum/core/circuits/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..0877b47 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From da3aa333d5afe2faba6e0798bfdac8066760495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:41 +0000
Subject: [PATCH 04/98] fix: look up only gates in builtin_gate_by_name

---
 src/python/zquantum/core/circuits/_builtin_gates.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_builtin_gates.py b/src/python/zquantum/core/circuits/_builtin_gates.py
index fd1a328..7720511 100644
--- a/src/python/zquantum/core/circuits/_builtin_gates.py
+++ b/src/python/zquantum/core/circuits/_builtin_gates.py
@@ -27,9 +27,19 @@ def builtin_gate_by_name(name) -> GateRef:
     Raises:
         KeyError: when there's no built-in gate for this name.
     """
+    if name not in _BUILTIN_GATE_NAMES:
+        raise KeyError(name)
     return globals()[name]
 
 
+# Other names in this module (imports, type aliases, functions) aren't gates, and custom
+# gates are free to use them.
+_BUILTIN_GATE_NAMES = frozenset(
+    ["X", "Y", "Z", "H", "I", "S", "T", "RX", "RY", "RZ", "RH", "PHASE", "U3"]
+    + ["CNOT", "CZ", "SWAP", "ISWAP", "CPHASE", "XX", "YY", "ZZ", "XY"]
+)
+
+
 # --- non-parametric, single qubit gates ---
 
 X = _gates.MatrixFactoryGate("X", _matrices.x_matrix, (), 1, is_hermitian=True)
-- 
2.43.0


From 0e4938778955f2b6a597b4ad2f53b88a703bae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:47 +0000
Subject: [PATCH 05/98] fix: raise the error for an undefined layer type

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From af0b60f42ecdeb04658176beffff60ba416ebbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:47 +0000
Subject: [PATCH 06/98] fix: give random circuits the requested register size

---
 src/python/zquantum/core/circuits/_testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_testing.py b/src/python/zquantum/core/circuits/_testing.py
index e68cbca..f3d33eb 100644
--- a/src/python/zquantum/core/circuits/_testing.py
+++ b/src/python/zquantum/core/circuits/_testing.py
@@ -64,7 +64,7 @@ def create_random_circuit(
     )
 
     # Loop to add gates to circuit
-    circuit = Circuit()
+    circuit = Circuit(n_qubits=n_qubits)
     for _ in range(n_gates):
         # Pick gate type
         gates_list = rng.choice(all_gates_lists)
-- 
2.43.0


From 92c09e9fdf79cfb82678ba44605f73235ca33f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/98] fix: create random circuits on a single qubit

---
 src/python/zquantum/core/circuits/_testing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_testing.py b/src/python/zquantum/core/circuits/_testing.py
index f3d33eb..2d2960f 100644
--- a/src/python/zquantum/core/circuits/_testing.py
+++ b/src/python/zquantum/core/circuits/_testing.py
@@ -63,6 +63,10 @@ def create_random_circuit(
         ],
     )
 
+    if n_qubits < 2:
+        # Two qubit gates don't fit
+        all_gates_lists = all_gates_lists[[0, 2]]
+
     # Loop to add gates to circuit
     circuit = Circuit(n_qubits=n_qubits)
     for _ in range(n_gates):
-- 
2.43.0


From 80f804469fd35357321f602ac5bdb595452c024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 08/98] fix: collect definitions of custom gates wrapped in
 controls or daggers

---
 src/python/zquantum/core/circuits/_circuit.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index c83053a..49fa823 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,15 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -97,10 +103,11 @@ class Circuit:
         return _append_to_circuit(other, self)
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
+        gates = (_innermost_gate(operation.gate) for operation in self.operations)
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in gates
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From 46f16bb1908d99937183425da750b205a0f4a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 09/98] fix: load symbolic parameters of custom gates with
 their own symbols

---
 src/python/zquantum/core/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..140d859 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,7 +270,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From f23033348ebf90d8a9d2f2867bc2095945311447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:03 +0000
Subject: [PATCH 10/98] fix: serialize float coefficients of expressions
 without losing digits

---
 src/python/zquantum/core/circuits/_serde.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index 140d859..e932794 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -7,6 +7,7 @@ from functools import singledispatch
 from typing import Dict, Iterable, List, Mapping, Union
 
 import sympy
+from sympy.printing.str import StrPrinter
 from zquantum.core.typing import DumpTarget, LoadSource
 
 from ..serialization import ensure_open
@@ -17,8 +18,15 @@ CIRCUIT_SCHEMA = SCHEMA_VERSION + "-circuit-v2"
 CIRCUITSET_SCHEMA = SCHEMA_VERSION + "-circuitset-v2"
 
 
+class _ExprPrinter(StrPrinter):
+    """Prints floats with as many digits as are needed for reading them back exactly."""
+
+    def _print_Float(self, expr):
+        return repr(float(expr))
+
+
 def serialize_expr(expr: sympy.Expr):
-    return str(expr)
+    return _ExprPrinter().doprint(expr) if isinstance(expr, sympy.Basic) else str(expr)
 
 
 def _make_symbols_map(
@@ -42,7 +50,9 @@ def _make_symbols_map(
 
 def deserialize_expr(expr_str, symbol_names):
     symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    expr = sympy.sympify(expr_str, locals=symbols_map)
+    # Sympy infers precision of a float from its number of digits.
+    return expr.xreplace({x: sympy.Float(float(x)) for x in expr.atoms(sympy.Float)})
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From bb4120dbe56d3bb24a6f4b90c257af8e6f63200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:56 +0000
Subject: [PATCH 11/98] fix: keep the register size when decomposing a circuit

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From 5c6c37de1c6dbe9a0998cf21cbe326dc0f71f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 12/98] fix: rejected slice assignment leaves the wavefunction
 unchanged

The saved old value was a view of the array being assigned to, so a rejected
slice assignment was not rolled back.
---
 src/python/zquantum/core/wavefunction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..de10c3f 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -110,16 +110,16 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        new_vector = self._amplitude_vector.copy()
+        new_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 9a4714e59cedab2c9aa21744ffde40838fe991e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 13/98] fix: normalization check of matrices without free
 symbols

Assigning numbers to all symbolic amplitudes raised a TypeError from np.isclose
after the object had been changed.
---
 src/python/zquantum/core/wavefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index de10c3f..0b696c6 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -85,7 +85,8 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            amplitudes = np.array(arr, dtype=np.complex128)
+            probs_of_ground_entries = np.sum(np.abs(amplitudes) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
-- 
2.43.0


From fd518e8ad72531564e2831a26f55771aba23c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 14/98] fix: wavefunction does not share memory with the array
 it was built from

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 0b696c6..fe03137 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -56,7 +56,7 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
-- 
2.43.0


From 2836dd645640ded52c80832beff8023fc70e58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 15/98] fix: fully bound wavefunctions have a flat amplitude
 vector

---
 src/python/zquantum/core/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index fe03137..fe5e36c 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -6,7 +6,7 @@ from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
 
 import numpy as np
-from sympy import Matrix, Symbol
+from sympy import Matrix, MatrixBase, Symbol
 from zquantum.core.typing import ParameterizedVector
 
 
@@ -59,6 +59,9 @@ class Wavefunction:
             self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
+        else:
+            if isinstance(amplitude_vector, MatrixBase):
+                self._amplitude_vector = self._amplitude_vector.flatten()
 
         self._check_normalization(self._amplitude_vector)
 
-- 
2.43.0


From 3c50f854e74543dcbdbedeac2272a0e04fddb2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 16/98] fix: amplitudes are an array once numbers were assigned
 to all symbolic entries

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index fe5e36c..0b0eeb2 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -67,7 +67,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, MatrixBase):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
-- 
2.43.0


From c24496b96e26166489c3c3da2b2bd2b1c7350fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 17/98] fix: accept symbolic wavefunctions whose numeric part
 sums to one up to rounding

---
 src/python/zquantum/core/wavefunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 0b0eeb2..3421333 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -99,7 +99,9 @@ class Wavefunction:
             )
             probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
-            if probs_of_ground_entries > 1.0:
+            if probs_of_ground_entries > 1.0 and not np.isclose(
+                probs_of_ground_entries, 1.0
+            ):
                 raise ValueError(
                     "Ground entries in vector already exceeding probability of 1.0!"
                 )
-- 
2.43.0


From d2aeb3f9827776693fdf5b3a1cd39fa4e4be34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 18/98] fix: comparing numeric wavefunctions returns a bool

---
 src/python/zquantum/core/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 3421333..f1d2cf6 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -134,7 +134,10 @@ class Wavefunction:
         if not isinstance(other, Wavefunction):
             return False
 
-        return self._amplitude_vector == other._amplitude_vector
+        if self.free_symbols or other.free_symbols:
+            return self._amplitude_vector == other._amplitude_vector
+
+        return np.array_equal(self.amplitudes, other.amplitudes)
 
     @staticmethod
     def zero_state(n_qubits: int) -> "Wavefunction":
-- 
2.43.0


From 242fd4d3cc74188a6a0031315c7c46de80d57160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 19/98] fix: bind all symbols of a wavefunction simultaneously

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index f1d2cf6..3946e10 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -195,7 +195,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From a7853bd9db8b2541060bf372921ad26cb2c009e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:35 +0000
Subject: [PATCH 20/98] fix: keep all recorded measurements of a tracking
 backend

Every call overwrote the file with that call's data only and dropped what was
recorded before.
---
 src/python/zquantum/core/trackers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..8d1b51f 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -153,4 +153,3 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
-        self.raw_data = []
-- 
2.43.0


From 27492ff859086c20a884ccda8b0d43f1fc353acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 21/98] fix: expectation values of operators with complex-typed
 coefficients

Measurements.get_expectation_values raised a TypeError for coefficients of complex
type (as the fermion-to-qubit transforms produce), real or not.
---
 src/python/zquantum/core/measurement.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..1054bda 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -406,9 +406,14 @@ def expectation_values_to_real(
     expectation_values.values = np.array(values)
     if expectation_values.correlations:
         for i, value in enumerate(expectation_values.correlations):
-            if isinstance(value, complex):
+            if np.iscomplexobj(value):
                 value = value.real
             expectation_values.correlations[i] = value
+    if expectation_values.estimator_covariances:
+        for i, value in enumerate(expectation_values.estimator_covariances):
+            if np.iscomplexobj(value):
+                value = value.real
+            expectation_values.estimator_covariances[i] = value
     return expectation_values
 
 
@@ -763,7 +768,10 @@ class Measurements:
         ]
         expectation_values = np.array(expectation_values_list)
 
-        correlations = np.zeros((len(ising_operator.terms),) * 2)
+        correlations = np.zeros(
+            (len(ising_operator.terms),) * 2,
+            dtype=np.result_type(float, expectation_values),
+        )
         for i, first_term in enumerate(ising_operator.terms):
             correlations[i, i] = ising_operator.terms[first_term] ** 2
             for j in range(i):
-- 
2.43.0


From b5ff3eff2076d8982b99a01402a6a9014da71fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 22/98] fix: adding counts to measurements does not extend the
 list they were built from

---
 src/python/zquantum/core/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 1054bda..bf02980 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -576,7 +576,7 @@ class Measurements:
         if bitstrings is None:
             self.bitstrings = []
         else:
-            self.bitstrings = bitstrings
+            self.bitstrings = list(bitstrings)
 
     @classmethod
     def from_counts(cls, counts: Dict[str, int]):
-- 
2.43.0


From 47d1212523c171382d8ff06077bad3a63b9b4672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 23/98] fix: MMD of distributions over more than 31 qubits

Squared differences of outcomes overflowed 64-bit integers, which made kernel
values larger than one (or the computation fail beyond 63 qubits).
---
 src/python/zquantum/core/distribution/mmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/distribution/mmd.py b/src/python/zquantum/core/distribution/mmd.py
index 6a32748..65e1bb0 100644
--- a/src/python/zquantum/core/distribution/mmd.py
+++ b/src/python/zquantum/core/distribution/mmd.py
@@ -46,7 +46,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = (np.abs(x_i[:, None] - y_j[None, :]) ** 2).astype(float)
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -73,7 +73,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = (np.abs(x_i[:, None] - y_j[None, :]) ** 2).astype(float)
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -121,8 +121,8 @@ def compute_mmd(
         )
 
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+        [int("".join(map(str, item)), 2) for item in all_keys], dtype=object
+    )  # Digit Tuple to int (of arbitrary size)
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From 7d7e8df9f5351c20e9b1ebeae010d25f3b90ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 24/98] fix: load single-subsystem outcomes of two or more
 digits as saved

The outcome (12,) was saved as "12", which loads as (1, 2).
---
 .../_measurement_outcome_distribution.py          | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..86c3027 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,8 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -222,10 +223,14 @@ def normalize_measurement_outcome_distribution(
 
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
-    return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
-        for key, value in dict.items()
-    }
+    def _to_string(key):
+        if not isinstance(key, tuple):
+            return key
+        # A trailing comma tells the number 12 from the digits 1 and 2.
+        trailing_comma = "," if len(key) == 1 and key[0] > 9 else ""
+        return ",".join(map(str, key)) + trailing_comma
+
+    return {_to_string(key): value for key, value in dict.items()}
 
 
 def save_measurement_outcome_distribution(
-- 
2.43.0


From 6147309849ec20fc35d09fc2b52b990dc7177c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:50 +0000
Subject: [PATCH 25/98] fix: variances of groups with complex-typed
 coefficients are real

---
 src/python/zquantum/core/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 01ed1fc..236212d 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -133,7 +133,7 @@ def get_decomposition_function(
 
 def _calculate_variance_upper_bound(group: QubitOperator) -> float:
     coefficients = np.array(list(group.terms.values()))
-    return np.sum(coefficients**2)
+    return np.sum(np.abs(coefficients) ** 2)
 
 
 def _remove_constant_term_from_group(group: QubitOperator) -> QubitOperator:
@@ -183,7 +183,7 @@ def compute_group_variances(
             pauli_variances_for_group = pauli_variances[
                 offset : offset + group_sizes[i]
             ]
-            frame_variances.append(np.sum(coeffs**2 * pauli_variances_for_group))
+            frame_variances.append(np.sum(np.abs(coeffs) ** 2 * pauli_variances_for_group))
 
     return np.array(frame_variances)
 
-- 
2.43.0


From 172d254af502b7bf1374b076d372528404c9174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:50 +0000
Subject: [PATCH 26/98] fix: shot planning leaves the given prior expectation
 values as they were

---
 src/python/zquantum/core/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 236212d..36d4bb5 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -169,7 +169,7 @@ def compute_group_variances(
             raise ValueError(
                 "Number of expectation values should be the same as number of terms."
             )
-        real_expecval = expectation_values_to_real(expecval)
+        real_expecval = expectation_values_to_real(copy.deepcopy(expecval))
         if not np.logical_and(
             real_expecval.values >= -1, real_expecval.values <= 1
         ).all():
-- 
2.43.0


From bc59e5aac0c07619e14310edd626e4c6856be4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:50 +0000
Subject: [PATCH 27/98] fix: use a single symbols map for all estimation tasks

---
 src/python/zquantum/core/estimation/_estimation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..4b61ab3 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -198,6 +198,11 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = symbols_maps * len(estimation_tasks)
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From ac3e522c7fa54563a8e1080ea339be82ac71764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:50 +0000
Subject: [PATCH 28/98] fix: expectation values of constant tasks are real as
 those of measured tasks

---
 src/python/zquantum/core/estimation/_estimation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 4b61ab3..d0ec240 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -290,10 +290,12 @@ def evaluate_non_measured_estimation_tasks(
             coefficient = task.operator.terms[()]
 
         expectation_values.append(
-            ExpectationValues(
-                np.asarray([coefficient]),
-                correlations=[np.asarray([[0.0]])],
-                estimator_covariances=[np.asarray([[0.0]])],
+            expectation_values_to_real(
+                ExpectationValues(
+                    np.asarray([coefficient]),
+                    correlations=[np.asarray([[0.0]])],
+                    estimator_covariances=[np.asarray([[0.0]])],
+                )
             )
         )
 
-- 
2.43.0


From 70978db96186460c826c9028acd3afc922d398d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 29/98] fix: precision of sums whose variance vanishes up to
 rounding

---
 src/python/zquantum/core/cost_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index d083031..26ca15c 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -194,7 +194,8 @@ def sum_expectation_values(expectation_values: ExpectationValues) -> ValueEstima
         estimator_variance = 0.0
         for frame_covariance in expectation_values.estimator_covariances:
             estimator_variance += float(np.sum(frame_covariance, (0, 1)))
-        precision = np.sqrt(estimator_variance)
+        # Rounding can make a vanishing variance slightly negative.
+        precision = np.sqrt(max(estimator_variance, 0.0))
     return ValueEstimate(value, precision)
 
 
-- 
2.43.0


From 26de69187850cad7b7b8b1addaf98d8b096e86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 30/98] fix: add parameter noise to integer parameter vectors

---
 src/python/zquantum/core/cost_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index 26ca15c..112d8ba 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -140,7 +140,7 @@ def get_ground_state_cost_function(
         if parameter_precision is not None:
             rng = np.random.default_rng(parameter_precision_seed)
             noise_array = rng.normal(0.0, parameter_precision, len(parameters))
-            parameters += noise_array
+            parameters = parameters + noise_array
 
         symbols_map = create_symbols_map(circuit_symbols, parameters)
         current_estimation_tasks = evaluate_estimation_circuits(
@@ -289,7 +289,7 @@ class AnsatzBasedCostFunction:
             noise_array = rng.normal(
                 0.0, self.parameter_precision, len(full_parameters)
             )
-            full_parameters += noise_array
+            full_parameters = full_parameters + noise_array
 
         symbols_map = create_symbols_map(self.circuit_symbols, full_parameters)
         estimation_tasks = evaluate_estimation_circuits(
-- 
2.43.0


From 223c922e6b9eb11f05c9ca89726e5dd23ef5a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 31/98] fix: apply parameter preprocessors given as an iterator
 in every evaluation

---
 src/python/zquantum/core/cost_function.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index 112d8ba..c40a887 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -389,10 +389,10 @@ def create_cost_function(
 
     """
 
+    preprocessors = [] if parameter_preprocessors is None else [*parameter_preprocessors]
+
     def _cost_function(parameters: np.ndarray) -> Union[float, ValueEstimate]:
-        for preprocessor in (
-            [] if parameter_preprocessors is None else parameter_preprocessors
-        ):
+        for preprocessor in preprocessors:
             parameters = preprocessor(parameters)
 
         estimation_tasks = estimation_tasks_factory(parameters)
-- 
2.43.0


From a73de1ddc8a3755ba7524056520195fa63edb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 32/98] fix: changing a returned array does not change the
 recorded history

---
 src/python/zquantum/core/history/recorder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9142167 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -107,7 +107,9 @@ class SimpleRecorder(Generic[S, T]):
         return_value = self.target(params)
         if self.predicate(return_value, params, self.call_number):
             self.history.append(
-                HistoryEntry(self.call_number, copy.copy(params), return_value)
+                HistoryEntry(
+                    self.call_number, copy.copy(params), copy.copy(return_value)
+                )
             )
         self.call_number += 1
         return return_value
@@ -158,7 +160,10 @@ class ArtifactRecorder(Generic[S, T]):
         if self.predicate(return_value, params, self.call_number) or artifacts.forced:
             self.history.append(
                 HistoryEntryWithArtifacts(
-                    self.call_number, copy.copy(params), return_value, artifacts
+                    self.call_number,
+                    copy.copy(params),
+                    copy.copy(return_value),
+                    artifacts,
                 )
             )
         self.call_number += 1
-- 
2.43.0


From ab25d54ca3afccd519f1d40f23fd84c983a1c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 33/98] fix: copies of recorders keep the recorded gradient
 calls

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 9142167..3552f77 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = recorder_to_copy.gradient
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From c85759c06806866e36f8271cc0dccb90d5f0449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 34/98] fix: augment the gradient of functions which are not
 augmented themselves

---
 .../zquantum/core/cost_function_augmentations.py      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..8626abf 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -173,6 +173,17 @@ def augment_cost_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
 
+    if (
+        augmented_cost_function is cost_function
+        and attribute_overrides
+        and gradient_augmentations
+    ):
+        # The augmented gradient has to be accessible also if there are no augmentations
+        # of the cost function itself.
+        augmented_cost_function = _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     return augmented_cost_function
 
 
-- 
2.43.0


From d9bbd47fb3967430f28ca142fa0afeaeff26ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 35/98] fix: record recorders and augmentations of decorated
 functions storing artifacts

---
 src/python/zquantum/core/interfaces/functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/interfaces/functions.py b/src/python/zquantum/core/interfaces/functions.py
index d065a35..0b7ac9c 100644
--- a/src/python/zquantum/core/interfaces/functions.py
+++ b/src/python/zquantum/core/interfaces/functions.py
@@ -2,7 +2,8 @@
 # © Copyright 2020-2021 Zapata Computing Inc.
 ################################################################################
 """Protocols describing different kinds of functions."""
-from inspect import signature
+from functools import partial
+from inspect import isroutine, signature
 from typing import Any, Callable, NamedTuple, Optional, TypeVar, Union, cast
 
 import numpy as np
@@ -54,6 +55,11 @@ def has_store_artifact_param(function) -> bool:
     :param function: a callable to be checked.
     :return: True, if `function` has store_artifact parameter and False otherwise.
     """
+    # Callable objects like recorders may forward attribute access to the function they
+    # hold and hence look like it. What counts are the parameters of their own call.
+    if not isroutine(function) and not isinstance(function, (partial, type)):
+        function = function.__call__
+
     try:
         return "store_artifact" in signature(function, follow_wrapped=True).parameters
     except ValueError:
-- 
2.43.0


From db51ba217b77cbe584f12e3d5a1ee951138a8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 36/98] fix: recorders of augmented functions record the calls
 of their gradient

---
 src/python/zquantum/core/cost_function_augmentations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 8626abf..35a344f 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -77,6 +77,10 @@ class _AttributePropagatingWrapper:
             "_attribute_overrides",
             attribute_overrides if attribute_overrides else {},
         )
+        # Runtime checks of protocols (e.g. of having a gradient) may not see attributes
+        # available only through __getattr__.
+        for attr_name, value in self._attribute_overrides.items():
+            object.__setattr__(self, attr_name, value)
 
     def __call__(self, *args, **kwargs):
         """Propagate call to the wrapped function.
-- 
2.43.0


From 289de18ff70f9ca8a64fa62e98a08991d15629f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:57 +0000
Subject: [PATCH 37/98] fix: evolve the repeated part of derivative circuits
 for one Trotter step only

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From 7004f694cb2ffa69c1b4e94eaeb88df9354bf63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:57 +0000
Subject: [PATCH 38/98] fix: keep factors of time evolution derivatives real
 for complex-typed coefficients

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index dc553a1..3268deb 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -139,7 +139,7 @@ def time_evolution_derivatives(
 
             try:
                 if isinstance(term_1, QubitOperator):
-                    r = list(term_1.terms.values())[0] / trotter_order
+                    r = complex(list(term_1.terms.values())[0]).real / trotter_order
                 else:
                     r = complex(term_1.coefficient).real / trotter_order
             except TypeError:
-- 
2.43.0


From 403bc34c9ad30dd5ea81c9c56f1a8468192b5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:57 +0000
Subject: [PATCH 39/98] fix: allow terms with zero coefficient in time
 evolution derivatives

---
 src/python/zquantum/core/evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index 3268deb..8038b84 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -147,6 +147,9 @@ def time_evolution_derivatives(
                     "Term coefficients need to be numerical. "
                     f"Offending term: {term_1}"
                 )
+            if r == 0:
+                # The evolution doesn't depend on time through this term.
+                continue
             output_factors.append(r * factor)
             shift = factor * (np.pi / (4.0 * r))
 
-- 
2.43.0


From 19903b69f52cbcc07487476fea16d440642d620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:57 +0000
Subject: [PATCH 40/98] fix: evolve under an empty Hamiltonian

---
 src/python/zquantum/core/evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index 8038b84..1815fb3 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -44,6 +44,7 @@ def time_evolution(
             for _index_order in range(trotter_order)
             for term in terms
         ),
+        circuits.Circuit(),
     )
 
 
-- 
2.43.0


From ceb015303615f94d7184da0471c242efba84c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 41/98] fix: allow adding operators to and subtracting them
 from themselves in place

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..87152d2 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,7 +438,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
@@ -485,7 +485,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
-- 
2.43.0


From 4c3900a368c7481c488c0af74d3a5409ba372551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 42/98] fix: allow independent iterations over the same
 operator

---
 .../core/openfermion/ops/operators/symbolic_operator.py    | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 87152d2..930e290 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        return self.get_operators()
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From 88c8090689bb1cec3094d91f92d4ddb564662557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 43/98] fix: many-body order of operators with negligible
 coefficients only

---
 .../core/openfermion/ops/operators/symbolic_operator.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 930e290..c578a97 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -717,9 +717,12 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             return 0
         else:
             return max(
-                len(term)
-                for term, coeff in self.terms.items()
-                if (self._issmall(coeff) is False)
+                (
+                    len(term)
+                    for term, coeff in self.terms.items()
+                    if (self._issmall(coeff) is False)
+                ),
+                default=0,
             )
 
     @classmethod
-- 
2.43.0


From 40286d7a675a67527e2f3ae177a7a412f84b846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 44/98] fix: print operators with negligible coefficients only
 as zero

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index c578a97..38cf186 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -350,7 +350,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
                 else:
                     tmp_string += "{}{} ".format(index, action_string)
             string_rep += "{}] +\n".format(tmp_string.strip())
-        return string_rep[:-3]
+        return string_rep[:-3] or "0"
 
     def __repr__(self):
         return str(self)
-- 
2.43.0


From 33b92a94819d1dfba307824ad6f667e5586e86f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 45/98] fix: keep negative symbolic coefficients when
 compressing operators

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 38cf186..875b429 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -665,9 +665,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From 1be6833fae1b503556a8d0adcbb1de5759fb8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 46/98] fix: tolerance of operator comparison doesn't grow with
 other terms

---
 .../core/openfermion/ops/operators/symbolic_operator.py      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 875b429..0cd8232 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -638,9 +638,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         for term in set(self.terms).intersection(set(other.terms)):
             a = self.terms[term]
             b = other.terms[term]
+            term_tol = tol
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol *= max(1, abs(a), abs(b))
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From f0ca3ebc37da35cbb2477224ca6813157e8f2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 47/98] fix: allow larger registers in Bravyi-Kitaev transform
 of interaction operators

---
 .../openfermion/transforms/opconversions/bravyi_kitaev.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
index 98bd737..95467e6 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
@@ -273,7 +273,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
     qubit_hamiltonian_coef = []
 
     #  For cases A - F see Table II of Seeley, Richard, Love
-    for i in range(n_qubits):
+    for i in range(N):
         # A. Number operators: n_i
         if abs(one_body[i, i]) > 0:
             qubit_hamiltonian += _qubit_operator_creation(
@@ -313,8 +313,8 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                 constant_term += coef
 
     # C. Number-excitation operators: n_i a_j^d a_k
-    for i in range(n_qubits):
-        for j in range(n_qubits):
+    for i in range(N):
+        for j in range(N):
             for k in range(j):
                 if i not in (j, k):
                     coef = _two_body_coef(two_body, i, j, k, i)
@@ -340,7 +340,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                         qubit_hamiltonian += number
 
     # D. Double-excitation operators: c_i^d c_j^d c_k c_l
-    for i in range(n_qubits):
+    for i in range(N):
         for j in range(i):
             for k in range(j):
                 for l in range(k):
-- 
2.43.0


From 3769ed029a3953f45d23621291ab7a1da3c9f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 48/98] fix: reorder modes of constant operators

---
 .../openfermion/transforms/opconversions/term_reordering.py  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
index d1a3b6e..f81beb3 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
@@ -247,7 +247,10 @@ def reorder(operator, order_function, num_modes=None, reverse=False):
     """
 
     if num_modes is None:
-        num_modes = max([factor[0] for term in operator.terms for factor in term]) + 1
+        num_modes = (
+            max((factor[0] for term in operator.terms for factor in term), default=-1)
+            + 1
+        )
 
     mode_map = {
         mode_idx: order_function(mode_idx, num_modes) for mode_idx in range(num_modes)
-- 
2.43.0


From 71f6f33c8f0cae3d5881d42f16d79a42aaf30066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 49/98] fix: don't share tensors between an operator and its
 addend

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..9b2dc54 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.copy(addend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From 8163d4fe535614faa3d2036abdf06f4983299d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 50/98] fix: multiply and divide real tensors by numbers of
 other types

---
 .../core/openfermion/ops/representations/polynomial_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index 9b2dc54..d773761 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -294,7 +294,7 @@ class PolynomialTensor(object):
     def __imul__(self, multiplier):
         if isinstance(multiplier, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] *= multiplier
+                self.n_body_tensors[key] = self.n_body_tensors[key] * multiplier
 
         elif isinstance(multiplier, PolynomialTensor):
             if self.n_qubits != multiplier.n_qubits:
@@ -328,7 +328,7 @@ class PolynomialTensor(object):
     def __itruediv__(self, dividend):
         if isinstance(dividend, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] /= dividend
+                self.n_body_tensors[key] = self.n_body_tensors[key] / dividend
         else:
             raise TypeError("Invalid type.")
 
-- 
2.43.0


From de866e95821c511c216d847d7d16a6a706f33103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 51/98] fix: allow polynomial tensors with only a constant

---
 .../openfermion/ops/representations/polynomial_tensor.py   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index d773761..1eaddbf 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -137,11 +137,8 @@ class PolynomialTensor(object):
             self._n_qubits = None
         else:
             # Set n_qubits
-            key_iterator = iter(n_body_tensors.keys())
-            key = next(key_iterator)
-            if key == ():
-                key = next(key_iterator)
-            self._n_qubits = n_body_tensors[key].shape[0]
+            key = next((key for key in n_body_tensors if key != ()), None)
+            self._n_qubits = 0 if key is None else n_body_tensors[key].shape[0]
 
     @property
     def constant(self):
-- 
2.43.0


From 44a7e5e6638f057bdd5d105e0c8f69a256988cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 52/98] fix: keep imaginary parts of complex integrals

---
 .../ops/representations/interaction_operator.py          | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py b/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py
index e668b18..8b53811 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py
@@ -179,8 +179,13 @@ def get_tensors_from_integrals(one_body_integrals, two_body_integrals):
     n_qubits = 2 * one_body_integrals.shape[0]
 
     # Initialize Hamiltonian coefficients.
-    one_body_coefficients = numpy.zeros((n_qubits, n_qubits))
-    two_body_coefficients = numpy.zeros((n_qubits, n_qubits, n_qubits, n_qubits))
+    one_body_coefficients = numpy.zeros(
+        (n_qubits, n_qubits), dtype=numpy.result_type(one_body_integrals, float)
+    )
+    two_body_coefficients = numpy.zeros(
+        (n_qubits, n_qubits, n_qubits, n_qubits),
+        dtype=numpy.result_type(two_body_integrals, float),
+    )
     # Loop through integrals.
     for p in range(n_qubits // 2):
         for q in range(n_qubits // 2):
-- 
2.43.0


From f33a5a4224b08e137d9a1d319ff5ded16fcb26e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 53/98] fix: respect the prune argument of freeze_orbitals

---
 .../transforms/repconversions/operator_tapering.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..90ed266 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -32,6 +32,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             assumed to be occupied.
         unoccupied: A list containing the indices of the orbitals that are to
             be assumed to be unoccupied.
+        prune: Whether to renumber the remaining orbitals.
     """
     new_operator = fermion_operator
     frozen = [(index, 1) for index in occupied]
@@ -83,7 +84,8 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
                     new_operator.terms[term] *= -1
 
     # Renumber indices to remove frozen orbitals
-    new_operator = prune_unused_indices(new_operator)
+    if prune:
+        new_operator = prune_unused_indices(new_operator)
 
     return new_operator
 
-- 
2.43.0


From 16d10e982c9a993a324f0dbd7190ce3b0fad04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:24 +0000
Subject: [PATCH 54/98] fix: keep active orbitals without terms when removing
 inactive ones

---
 .../core/openfermion/zapata_utils/_utils.py   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
index e19c1bd..795327d 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
@@ -1,6 +1,6 @@
 import itertools
 import random
-from typing import Iterable, List, Optional
+from typing import List, Optional
 
 import numpy as np
 from zquantum.core.circuits import Circuit, X, Y, Z
@@ -635,20 +635,25 @@ def remove_inactive_orbitals(
     # Determine which occupied spin-orbitals are to be frozen
     occupied = range(2 * n_core)
 
-    unoccupied: Iterable
     # Determine which unoccupied spin-orbitals are to be frozen
-    if n_active is not None:
-        unoccupied = range(
-            2 * n_core + 2 * n_active, interaction_op.one_body_tensor.shape[0]
-        )
-    else:
-        unoccupied = []
+    if n_active is None:
+        n_active = interaction_op.one_body_tensor.shape[0] // 2 - n_core
+    unoccupied = range(
+        2 * n_core + 2 * n_active, interaction_op.one_body_tensor.shape[0]
+    )
 
     # Freeze the spin-orbitals
-    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied)
+    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied, prune=False)
+
+    # Renumber the active spin-orbitals, including those without any terms
+    active_fermion_op = FermionOperator()
+    for term, coefficient in frozen_fermion_op.terms.items():
+        active_fermion_op += FermionOperator(
+            tuple((index - 2 * n_core, action) for index, action in term), coefficient
+        )
 
     # Convert back to an interaction operator
-    frozen_interaction_op = get_interaction_operator(frozen_fermion_op)
+    frozen_interaction_op = get_interaction_operator(active_fermion_op, 2 * n_active)
 
     return frozen_interaction_op
 
-- 
2.43.0


From 4f30ad0a8757699c4d17f2c1554864906ee77703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:20 +0000
Subject: [PATCH 55/98] fix: keep negligible terms when computing expectation
 values from RDMs

---
 src/python/zquantum/core/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 36d4bb5..c0e3627 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -245,7 +245,7 @@ def get_expectation_values_from_rdms(
         terms_iterator = qubitoperator.terms.items()
     reordered_qubitoperator = QubitOperator()
     for term, coefficient in terms_iterator:
-        reordered_qubitoperator += QubitOperator(term, coefficient)
+        reordered_qubitoperator.terms[term] = coefficient
     expectations_packed = interactionrdm.get_qubit_expectations(reordered_qubitoperator)
 
     expectations = np.array(list(expectations_packed.terms.values()))
-- 
2.43.0


From d9ca20533b84ddce6a8e0790369fa0827557f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:17 +0000
Subject: [PATCH 56/98] fix: respect the number of modes in sparse matrices of
 tensor operators

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..d92a66a 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -456,7 +456,9 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        if n_qubits is None:
+            n_qubits = count_qubits(operator)
+        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From ea7909ed843b648d96d34815a2cc901b7ec61bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:17 +0000
Subject: [PATCH 57/98] fix: find ground states of one-qubit operators

---
 .../zquantum/core/openfermion/linalg/sparse_tools.py  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index d92a66a..d2a8a7c 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -338,9 +338,14 @@ def get_ground_state(sparse_operator, initial_guess=None):
         eigenstate:
             The lowest eigenstate in scipy.sparse csc format.
     """
-    values, vectors = scipy.sparse.linalg.eigsh(
-        sparse_operator, k=1, v0=initial_guess, which="SA", maxiter=1e7
-    )
+    if sparse_operator.shape[0] - 1 <= 1:
+        # Operator too small for sparse eigensolver
+        dense_operator = sparse_operator * numpy.eye(sparse_operator.shape[0])
+        values, vectors = numpy.linalg.eigh(dense_operator)
+    else:
+        values, vectors = scipy.sparse.linalg.eigsh(
+            sparse_operator, k=1, v0=initial_guess, which="SA", maxiter=1e7
+        )
 
     order = numpy.argsort(values)
     values = values[order]
-- 
2.43.0


From dc4b544b6f7fa582e7ed16d177b5907148e4fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 58/98] fix: excitations out of the restricted space in
 number-preserving matrices

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index d2a8a7c..244c016 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -798,6 +798,10 @@ def _build_term_op_(term, state_array, int_state_array, sorting_indices):
             int_state_array, int_encoding, sorter=sorting_indices
         )
 
+        if target_state_index_sorted == space_size:
+            # Target state comes after all states of the space considered
+            continue
+
         target_state = sorting_indices[target_state_index_sorted]
 
         if int_state_array[target_state] == int_encoding:
-- 
2.43.0


From b17a42ca754ab7d711983fac0677bcb95b60c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 59/98] fix: don't share tensors between an operator and its
 subtrahend

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index 1eaddbf..e032bd6 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -276,7 +276,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.copy(subtrahend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From 64883a0ab6e15de01e67a9950c47f5794d2e04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 60/98] fix: keep complex type of loaded scalars and empty
 arrays

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..abe885c 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -34,7 +34,7 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
 
     array = np.array(dictionary["real"])
 
-    if dictionary.get("imag"):
+    if dictionary.get("imag") is not None:
         array = array + 1j * np.array(dictionary["imag"])
 
     return array
-- 
2.43.0


From 962957b4bc89ff2b06615aa57841be2d54c0dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 61/98] fix: decode dictionaries of numbers

---
 src/python/zquantum/core/serialization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..b702aba 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -32,6 +32,18 @@ def has_numerical_values(dictionary):
     return all(isinstance(value, Number) for value in dictionary.values())
 
 
+def is_distribution_dict(dictionary):
+    if not has_numerical_values(dictionary):
+        return False
+    try:
+        return is_measurement_outcome_distribution(
+            preprocess_distibution_dict(dictionary)
+        )
+    except ValueError:
+        # The keys aren't measurement outcomes
+        return False
+
+
 def preprocess(tree):
     """This inflates namedtuples into dictionaries, otherwise they would be serialized
     as lists.
@@ -101,9 +113,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif is_distribution_dict(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From 50f0c089b798443cf29dfa739a9a8d0c197107c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 62/98] fix: encode numpy scalars

---
 src/python/zquantum/core/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index b702aba..9a1fee1 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -79,7 +79,9 @@ class OrquestraEncoder(json.JSONEncoder):
     def default(self, o: Any):
         if type(o) in self.ENCODERS_TABLE:
             return self.ENCODERS_TABLE[type(o)](o)
-        return o
+        if isinstance(o, np.generic):
+            return o.item()
+        return super().default(o)
 
     def encode(self, o: Any):
         return super().encode(preprocess(o))
-- 
2.43.0


From ec64a79fa04539dff58a797fddfd5e2477d434d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 63/98] fix: saving optimization results doesn't modify them

---
 src/python/zquantum/core/serialization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 9a1fee1..ac7df32 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -124,7 +124,10 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    optimization_results = {
+        **optimization_results,
+        "schema": SCHEMA_VERSION + "-optimization_result",
+    }
     with open(filename, "wt") as target_file:
         json.dump(optimization_results, target_file, cls=OrquestraEncoder)
 
-- 
2.43.0


From 7c79305dd9e28cc06e6a562748f63090e5198027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 64/98] fix: saving a parameter grid evaluation doesn't modify
 it

---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..c83d066 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -295,11 +295,11 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
 
+    full_dict["values_set"] = []
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        full_dict["values_set"].append({**evaluation, "value": value})
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From d126dfc263caf45516d257d0c13f4dd7e58aa0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 65/98] fix: load measurement estimates saved without frame
 measurements

---
 src/python/zquantum/core/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index abe885c..d69e41d 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -551,7 +551,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: AnyPath,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -560,13 +562,15 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), if saved
     """
 
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From f44ee4f5baca9a0f02fddfd0684ee3a7e148272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 66/98] fix: load zero operators from plain text

---
 src/python/zquantum/core/openfermion/utils/operator_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..236065e 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -238,6 +238,8 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
         with open(file_path, "r") as f:
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
+        if operator_terms == "0":
+            operator_terms = None
 
         if operator_type == "FermionOperator":
             operator = FermionOperator(operator_terms)
-- 
2.43.0


From 22da8c9aa1fcb3d0c807d3a7e79dfb0019585ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 67/98] fix: keep empty correlations of saved expectation
 values and parities

---
 src/python/zquantum/core/measurement.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index bf02980..65d7e3a 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -140,12 +140,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -160,13 +160,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
@@ -235,7 +235,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -244,7 +244,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From ea29b55d0f6611c0da632d6c6904391d8c7f2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:35 +0000
Subject: [PATCH 68/98] fix: compare expectation values of several operators

---
 src/python/zquantum/core/measurement.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 65d7e3a..badd996 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -176,7 +176,22 @@ class ExpectationValues:
         return cls(expectation_values, correlations, estimator_covariances)
 
     def __eq__(self, __o: object) -> bool:
-        return self.__dict__ == __o.__dict__
+        if not isinstance(__o, ExpectationValues):
+            return NotImplemented
+
+        def _equal_frames(frames, other_frames):
+            if frames is None or other_frames is None:
+                return frames is other_frames
+            return len(frames) == len(other_frames) and all(
+                np.array_equal(np.atleast_2d(frame), np.atleast_2d(other_frame))
+                for frame, other_frame in zip(frames, other_frames)
+            )
+
+        return (
+            np.array_equal(self.values, __o.values)
+            and _equal_frames(self.correlations, __o.correlations)
+            and _equal_frames(self.estimator_covariances, __o.estimator_covariances)
+        )
 
 
 def sample_from_wavefunction(
-- 
2.43.0


From 02fc172d8ee2b3f3908a0d55c4402d336775dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:15 +0000
Subject: [PATCH 69/98] fix: encode complex numpy scalars

---
 src/python/zquantum/core/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index ac7df32..77df9c6 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -79,6 +79,8 @@ class OrquestraEncoder(json.JSONEncoder):
     def default(self, o: Any):
         if type(o) in self.ENCODERS_TABLE:
             return self.ENCODERS_TABLE[type(o)](o)
+        if isinstance(o, np.complexfloating):
+            return convert_array_to_dict(o)
         if isinstance(o, np.generic):
             return o.item()
         return super().default(o)
-- 
2.43.0


From f5329d94b52d9b06934a4e4c54349c0f8a2096d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 70/98] fix: missing import in the step summing expectation
 values

---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..f2aa022 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From 799b900191f2bbf8efa92afcf2ef8aa76b4d7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 71/98] fix: save the circuit concatenated by a step

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..0d47b04 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -107,7 +107,7 @@ def concatenate_circuits(circuit_set: Union[str, List[Circuit]]):
     if isinstance(circuit_set, str):
         circuit_set = load_circuitset(circuit_set)
     result_circuit = sum(circuit_set, Circuit())
-    save_circuitset(result_circuit, "result-circuit.json")
+    save_circuit(result_circuit, "result-circuit.json")
 
 
 # Create one circuitset from circuit and circuitset objects
-- 
2.43.0


From fab6fe8c542f08d8d0d216a78de0f31262a571ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 72/98] fix: batching circuits doesn't modify the input set

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 0d47b04..5a4f3fd 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From 24efbba69750ab8908e9b3d57f403fcab2855cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 73/98] fix: bind free symbols in the step evaluating circuits

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 5a4f3fd..aba3ec2 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -144,6 +144,6 @@ def evaluate_parametrized_circuit(
     if isinstance(parameters, str):
         parameters = serialization.load_array(parameters)
 
-    symbols_map = create_symbols_map(parametrized_circuit.symbolic_params, parameters)
+    symbols_map = create_symbols_map(parametrized_circuit.free_symbols, parameters)
     bound_circuit = parametrized_circuit.bind(symbols_map)
     save_circuit(bound_circuit, "evaluated-circuit.json")
-- 
2.43.0


From 3ba37c2e1ad89695443681868dc45df93ffeb27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 74/98] fix: accept operators in the step computing ground
 state RDMs

---
 steps/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..7c3189a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -102,7 +102,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
-- 
2.43.0


From a4b294a1d447858a4649ffd37aa5265e0b531c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 75/98] fix: accept operators in the step interpolating them

---
 steps/operators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index 406f237..1ac476d 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -80,8 +80,8 @@ def get_diagonal_component(interaction_operator: Union[InteractionOperator, str]
 
 
 def interpolate_qubit_operators(
-    reference_qubit_operator: Union[InteractionOperator, str],
-    target_qubit_operator: Union[InteractionOperator, str],
+    reference_qubit_operator: Union[QubitOperator, str],
+    target_qubit_operator: Union[QubitOperator, str],
     epsilon: float = 0.5,
 ):
     """Produce a qubit operator which is the interpolation of two operators through the
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From cafe40b83d7f1a72e2f80772f4f305401477d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 76/98] fix: allow vanishing matrix elements in one-qubit
 hydrogen hamiltonians

---
 steps/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index 1ac476d..c1c1ecc 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -138,15 +138,15 @@ def get_one_qubit_hydrogen_hamiltonian(
 
     # H00
     H00 = normal_ordered(FermionOperator("0 1") * fermion_h * FermionOperator("1^ 0^"))
-    H00 = H00.terms[()]
+    H00 = H00.terms.get((), 0.0)
 
     # H11
     H11 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("3^ 2^"))
-    H11 = H11.terms[()]
+    H11 = H11.terms.get((), 0.0)
 
     # H10
     H10 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("1^ 0^"))
-    H10 = H10.terms[()]
+    H10 = H10.terms.get((), 0.0)
 
     # H01
     H01 = np.conj(H10)
-- 
2.43.0


From 76161a7a9ba039c044c4c8cbd1ad8cd5dce70d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 77/98] fix: number of samples in the step estimating
 expectation values

---
 steps/evaluation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 7c3189a..d88162a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -2,7 +2,7 @@
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, Union, cast
+from typing import Dict, List, Optional, Union, cast
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
@@ -44,6 +44,7 @@ def get_expectation_values_for_qubit_operator(
     backend_specs: Specs,
     circuit: Union[str, Circuit, Dict],
     qubit_operator: Union[str, SymbolicOperator, Dict],
+    n_samples: Optional[int] = None,
 ):
     """Measure the expectation values of the terms in an input operator with respect to
     the state prepared by the input circuit on the backend described by the
@@ -63,6 +64,8 @@ def get_expectation_values_for_qubit_operator(
         backend_specs: The backend on which to run the quantum circuit
         circuit: The circuit that prepares the state to be measured
         qubit_operator: The operator to measure
+        n_samples: The number of samples to collect. Defaults to the n_samples attribute
+            of the backend.
     """
     if isinstance(circuit, str):
         circuit = load_circuit(circuit)
@@ -84,7 +87,9 @@ def get_expectation_values_for_qubit_operator(
             record_bitstrings=backend_specs.get("record_bitstrings"),
         )
 
-    estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
+    if n_samples is None:
+        n_samples = backend.n_samples
+    estimation_tasks = [EstimationTask(qubit_operator, circuit, n_samples)]
 
     expectation_values = estimate_expectation_values_by_averaging(
         backend, estimation_tasks
-- 
2.43.0


From 0af9a4b2c72264eab1933c7feabe783b0d962e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 78/98] fix: bitstring distribution step for backends that need
 samples

---
 steps/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/measure.py b/steps/measure.py
index f2aa022..8f56448 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -122,6 +122,7 @@ def get_bitstring_distribution(
     circuit: str,
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
+    n_samples: Optional[int] = None,
 ):
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
@@ -141,7 +142,7 @@ def get_bitstring_distribution(
 
     circuit = circuits.load_circuit(circuit)
 
-    bitstring_distribution = backend.get_bitstring_distribution(circuit)
+    bitstring_distribution = backend.get_bitstring_distribution(circuit, n_samples)
     save_measurement_outcome_distribution(
         bitstring_distribution, "bitstring-distribution.json"
     )
-- 
2.43.0


From 200415e9ca35512b67f7cc212b7fd0731139c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 79/98] fix: tracking of measurements in steps

---
 src/python/zquantum/core/trackers.py | 30 +++++++++-
 steps/evaluation.py                  | 20 ++-----
 steps/measure.py                     | 86 +++++++---------------------
 steps/optimize.py                    | 22 +------
 4 files changed, 57 insertions(+), 101 deletions(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 8d1b51f..2e974a4 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -9,7 +9,8 @@ from .circuits import Circuit, to_dict
 from .distribution import MeasurementOutcomeDistribution
 from .interfaces.backend import QuantumBackend
 from .measurement import Measurements
-from .utils import SCHEMA_VERSION
+from .typing import Specs
+from .utils import SCHEMA_VERSION, create_object
 
 
 class MeasurementTrackingBackend(QuantumBackend):
@@ -153,3 +154,30 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
+
+
+def create_backend_from_specs(backend_specs: Specs, **kwargs) -> QuantumBackend:
+    """Create the backend described by backend_specs.
+
+    If "track_measurements" is set in backend_specs, the backend is wrapped in a
+    MeasurementTrackingBackend configured by the keys "raw_data_file_name" (defaults to
+    "raw_data.json") and "record_bitstrings". The remaining specs are passed to the
+    backend itself.
+
+    Args:
+        backend_specs: specs of the backend, they aren't modified.
+        kwargs: additional specs of the backend.
+    """
+    if isinstance(backend_specs, str):
+        backend_specs = json.loads(backend_specs)
+    specs = {**backend_specs, **kwargs}  # type: ignore
+    track_measurements = specs.pop("track_measurements", False)
+    raw_data_file_name = specs.pop("raw_data_file_name", "raw_data.json")
+    record_bitstrings = specs.pop("record_bitstrings", False)
+
+    backend = create_object(specs)
+    if track_measurements:
+        backend = MeasurementTrackingBackend(
+            backend, raw_data_file_name, record_bitstrings=record_bitstrings
+        )
+    return backend
diff --git a/steps/evaluation.py b/steps/evaluation.py
index d88162a..9061bfb 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -1,12 +1,10 @@
 ################################################################################
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
-import json
-from typing import Dict, List, Optional, Union, cast
+from typing import Dict, List, Optional, Union
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
-from zquantum.core.interfaces.backend import QuantumBackend
 from zquantum.core.interfaces.estimation import EstimationTask
 from zquantum.core.measurement import (
     ExpectationValues,
@@ -34,9 +32,9 @@ from zquantum.core.openfermion.linalg import (
     jw_get_ground_state_at_particle_number as _jw_get_ground_state_at_particle_number,
 )
 from zquantum.core.openfermion.linalg import qubit_operator_sparse
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend_from_specs
 from zquantum.core.typing import Specs
-from zquantum.core.utils import ValueEstimate, create_object, save_value_estimate
+from zquantum.core.utils import ValueEstimate, save_value_estimate
 from zquantum.core.wavefunction import Wavefunction
 
 
@@ -76,17 +74,7 @@ def get_expectation_values_for_qubit_operator(
     elif isinstance(qubit_operator, dict):
         qubit_operator = convert_dict_to_qubitop(qubit_operator)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = cast(QuantumBackend, create_object(backend_specs))
-
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
-
+    backend = create_backend_from_specs(backend_specs)
     if n_samples is None:
         n_samples = backend.n_samples
     estimation_tasks = [EstimationTask(qubit_operator, circuit, n_samples)]
diff --git a/steps/measure.py b/steps/measure.py
index 8f56448..8a1135e 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -13,7 +13,7 @@ amount of data so the default behavior is not to save the bitstrings.
 """
 
 import json
-from typing import Dict, List, Optional, Union
+from typing import Any, Dict, List, Optional, Union
 
 from zquantum.core import circuits
 from zquantum.core.circuits import layouts
@@ -39,7 +39,7 @@ from zquantum.core.openfermion import (
     load_qubit_operator_set,
 )
 from zquantum.core.serialization import load_array
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend_from_specs
 from zquantum.core.typing import Specs
 from zquantum.core.utils import (
     create_object,
@@ -50,29 +50,29 @@ from zquantum.core.utils import (
 )
 
 
-def run_circuit_and_measure(
+def _create_backend(
     backend_specs: Specs,
-    circuit: Union[str, Dict],
-    n_samples: Optional[int] = None,
-    noise_model: Optional[str] = None,
-    device_connectivity: Optional[str] = None,
+    noise_model: Optional[str],
+    device_connectivity: Optional[str],
 ):
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    kwargs: Dict[str, Any] = {}
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        kwargs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
+        kwargs["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
+    return create_backend_from_specs(backend_specs, **kwargs)
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+
+def run_circuit_and_measure(
+    backend_specs: Specs,
+    circuit: Union[str, Dict],
+    n_samples: Optional[int] = None,
+    noise_model: Optional[str] = None,
+    device_connectivity: Optional[str] = None,
+):
+    backend = _create_backend(backend_specs, noise_model, device_connectivity)
 
     if isinstance(circuit, str):
         circuit = circuits.load_circuit(circuit)
@@ -90,24 +90,8 @@ def run_circuitset_and_measure(
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
 ):
-
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
-    if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
-
     circuit_set = circuits.load_circuitset(circuitset)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = _create_backend(backend_specs, noise_model, device_connectivity)
 
     n_samples_list = [n_samples for _ in circuit_set]
     measurements_set = backend.run_circuitset_and_measure(
@@ -124,21 +108,7 @@ def get_bitstring_distribution(
     device_connectivity: Optional[str] = None,
     n_samples: Optional[int] = None,
 ):
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
-    if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = _create_backend(backend_specs, noise_model, device_connectivity)
 
     circuit = circuits.load_circuit(circuit)
 
@@ -177,22 +147,8 @@ def evaluate_ansatz_based_cost_function(
     else:
         ansatz = create_object(ansatz_specs)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
-    if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = _create_backend(backend_specs, noise_model, device_connectivity)
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
diff --git a/steps/optimize.py b/steps/optimize.py
index f8fa831..a241fc1 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -18,7 +18,7 @@ from zquantum.core.serialization import (
     save_array,
     save_optimization_results,
 )
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend_from_specs
 from zquantum.core.typing import Specs
 from zquantum.core.utils import create_object, load_list
 
@@ -83,15 +83,7 @@ def optimize_parametrized_circuit_for_ground_state_of_operator(
         with open(parametrized_circuit) as f:
             parametrized_circuit = new_circuits.circuit_from_dict(json.load(f))
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend_from_specs(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
@@ -206,15 +198,7 @@ def optimize_ansatz_based_cost_function(
         ansatz_specs["cost_hamiltonian"] = target_operator
     ansatz = create_object(ansatz_specs)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend_from_specs(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
-- 
2.43.0


From b00bffcfb35aa2329cc3253057416e767f14a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 80/98] fix: steps don't modify the specs they are given

---
 steps/measure.py  | 9 +++++----
 steps/optimize.py | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/steps/measure.py b/steps/measure.py
index 8a1135e..cb8ee0c 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -147,11 +147,11 @@ def evaluate_ansatz_based_cost_function(
     else:
         ansatz = create_object(ansatz_specs)
 
-
     backend = _create_backend(backend_specs, noise_model, device_connectivity)
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
+    cost_function_specs = dict(cost_function_specs)
 
     if (
         "estimator-specs" in cost_function_specs.keys()
@@ -188,9 +188,10 @@ def evaluate_ansatz_based_cost_function(
                 # Since we don't know which estimation task transformation uses
                 # prior_expectation_values, we add it to the kwargs of each one. If not
                 # used by a particular transformer, it will be ignored.
-                estimation_tasks_transformation_specs[
-                    "prior_expectation_values"
-                ] = prior_expectation_values
+                estimation_tasks_transformation_specs = {
+                    **estimation_tasks_transformation_specs,
+                    "prior_expectation_values": prior_expectation_values,
+                }
             cost_function_specs["estimation_preprocessors"].append(
                 create_object(
                     estimation_tasks_transformation_specs,
diff --git a/steps/optimize.py b/steps/optimize.py
index a241fc1..d004917 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -190,6 +190,7 @@ def optimize_ansatz_based_cost_function(
 
     if isinstance(ansatz_specs, str):
         ansatz_specs = json.loads(ansatz_specs)
+    ansatz_specs = dict(ansatz_specs)
 
     if "WarmStartQAOAAnsatz" in ansatz_specs["function_name"]:
         ansatz_specs["thetas"] = np.array(load_list(kwargs.pop("thetas")))
-- 
2.43.0


From 1df6f40458bf2bf8182e69a4de721647324d321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 81/98] fix: omitted number of core orbitals in the step
 removing inactive orbitals

---
 steps/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/operators.py b/steps/operators.py
index c1c1ecc..01d1311 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -180,7 +180,9 @@ def remove_inactive_orbitals(
     interaction_operator = load_interaction_operator(interaction_operator)
 
     frozen_operator = _remove_inactive_orbitals(
-        interaction_operator, n_active=n_active, n_core=n_core
+        interaction_operator,
+        n_active=n_active,
+        n_core=0 if n_core is None else n_core,
     )
 
     save_interaction_operator(frozen_operator, "frozen-operator.json")
-- 
2.43.0


From 5fe01565ffddbff47e975a04c63d4d1f1f218e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 82/98] fix: coefficient of particle-hole symmetric number and
 interaction operators

---
 .../zquantum/core/openfermion/hamiltonians/general_hubbard.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
index 31886ba..7458603 100644
--- a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
+++ b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
@@ -31,7 +31,7 @@ PotentialParameter = namedtuple("PotentialParameter", ("dof", "coefficient"))
 def number_operator(i, coefficient=1.0, particle_hole_symmetry=False):
     op = FermionOperator(((i, 1), (i, 0)), coefficient)
     if particle_hole_symmetry:
-        op -= FermionOperator((), 0.5)
+        op -= FermionOperator((), 0.5 * coefficient)
     return op
 
 
-- 
2.43.0


From 922662b80421e2d92f045841d4aa21bf5613fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 83/98] fix: keep imaginary parts of spin-orbital integrals

---
 .../zquantum/core/openfermion/chem/molecular_data.py     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..ab1b4da 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -372,8 +372,13 @@ def spinorb_from_spatial(one_body_integrals, two_body_integrals):
     n_qubits = 2 * one_body_integrals.shape[0]
 
     # Initialize Hamiltonian coefficients.
-    one_body_coefficients = numpy.zeros((n_qubits, n_qubits))
-    two_body_coefficients = numpy.zeros((n_qubits, n_qubits, n_qubits, n_qubits))
+    one_body_coefficients = numpy.zeros(
+        (n_qubits, n_qubits), dtype=numpy.result_type(one_body_integrals, float)
+    )
+    two_body_coefficients = numpy.zeros(
+        (n_qubits, n_qubits, n_qubits, n_qubits),
+        dtype=numpy.result_type(two_body_integrals, float),
+    )
     # Loop through integrals.
     for p in range(n_qubits // 2):
         for q in range(n_qubits // 2):
-- 
2.43.0


From 90c9c341f43d6f49115401b2b2436ff56cab86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 84/98] fix: reduced hamiltonians of integer or differently
 typed tensors

---
 .../zquantum/core/openfermion/chem/reduced_hamiltonian.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/reduced_hamiltonian.py b/src/python/zquantum/core/openfermion/chem/reduced_hamiltonian.py
index 0d59e09..c5596d0 100644
--- a/src/python/zquantum/core/openfermion/chem/reduced_hamiltonian.py
+++ b/src/python/zquantum/core/openfermion/chem/reduced_hamiltonian.py
@@ -53,7 +53,7 @@ def make_reduced_hamiltonian(
     h2 = molecular_hamiltonian.two_body_tensor
 
     delta = numpy.eye(h1.shape[0])
-    k2 = numpy.zeros_like(h2)
+    k2 = numpy.zeros(h2.shape, dtype=numpy.result_type(h1, h2, float))
     normalization = 1 / (4 * (n_electrons - 1))
     for i, j, k, l in product(range(h1.shape[0]), repeat=4):
         k2[i, j, k, l] = (
-- 
2.43.0


From 9f6651fa67c9296a036d89c71d5f6ee7ecc1dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 85/98] fix: load molecules saved without general calculations

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index ab1b4da..7f49632 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -980,6 +980,7 @@ class MolecularData(object):
             data = f["ccsd_energy"][...]
             self.ccsd_energy = data if data.dtype.num != 0 else None
             # Load general calculations
+            self.general_calculations = {}
             if "general_calculations_keys" in f and "general_calculations_values" in f:
                 keys = f["general_calculations_keys"]
                 values = f["general_calculations_values"]
-- 
2.43.0


From f31034428fc3d52b086ec62c232f80bc5c89ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 86/98] fix: load the atoms of molecules as they were saved

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 7f49632..7c7edff 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -950,7 +950,9 @@ class MolecularData(object):
             # Load n_atoms:
             self.n_atoms = int(f["n_atoms"][...])
             # Load atoms:
-            self.atoms = f["atoms"][...]
+            self.atoms = [
+                atom.decode("utf-8") for atom in numpy.atleast_1d(f["atoms"][...]) if atom
+            ]
             # Load protons:
             self.protons = f["protons"][...]
             # Load n_electrons:
-- 
2.43.0


From 49f4269864883eeaa6ad4ade20c6bd72224d8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 87/98] fix: load molecular hamiltonians given only the number
 of active electrons

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 7c7edff..c60c510 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -1267,7 +1267,11 @@ def load_molecular_hamiltonian(
         occupied_indices = list(range(n_core_orbitals))
 
     if n_active_orbitals is None:
-        active_indices = None
+        active_indices = (
+            None
+            if occupied_indices is None
+            else list(range(n_core_orbitals, molecule.n_orbitals))
+        )
     else:
         active_indices = list(
             range(n_core_orbitals, n_core_orbitals + n_active_orbitals)
-- 
2.43.0


From c1363ee935fd930f600f23ae118bb8acf242094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 88/98] fix: dec2bin refuses the smallest number which doesn't
 fit

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index d69e41d..0b938c0 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -72,7 +72,7 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
-- 
2.43.0


From 97ca672a304ab2a4e432051bf1dbf1f881bb7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 89/98] fix: is_identity of matrices given as lists

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 0b938c0..2474746 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -120,7 +120,7 @@ def is_identity(u: np.ndarray, tol=1e-15) -> bool:
     if dims[0] != dims[1]:
         raise Exception("Input matrix is not square.")
 
-    return np.allclose(u, np.eye(u.shape[0]), atol=tol)
+    return np.allclose(u, np.eye(dims[0]), atol=tol)
 
 
 def is_unitary(u: np.ndarray, tol=1e-15) -> bool:
-- 
2.43.0


From df8eb3a70a3ec5f04f7b4d0d516fad522b4af70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 90/98] fix: comparing unitaries which differ by more than a
 phase

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 2474746..4e2ee00 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -160,7 +160,7 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
-    phase = test_matrix.item((0, 0)) ** -1
+    phase = np.exp(-1j * np.angle(test_matrix.item((0, 0))))
     return is_identity(phase * test_matrix, tol)
 
 
-- 
2.43.0


From 0423674c16db5226ebdafadb7d66c3fd7ac7a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 91/98] fix: scaling and discretizing values given as an
 iterator

---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 4e2ee00..c469df8 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -591,6 +591,8 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
+    values = list(values)
+
     # Note: combining the two lines below breaks type checking; see mypy #6040
     value_sum = sum(values)
     scale_factor = total / value_sum
-- 
2.43.0


From dc5b68b56946b8e3a0cc1ddf287e041b2c554d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 92/98] fix: value estimates are hashable, as other numbers are

---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index c469df8..c025fb6 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -274,6 +274,8 @@ class ValueEstimate(float):
     def __ne__(self, other):
         return not self == other
 
+    __hash__ = float.__hash__
+
     def __str__(self):
         value_str = super().__str__()
         if self.precision is not None:
-- 
2.43.0


From 18557a4b46de6960102653ec34b9955918e24ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:41 +0000
Subject: [PATCH 93/98] fix: sign of an operator's complex coefficient written
 without brackets

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0cd8232..633ab0f 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -177,7 +177,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             else:
                 try:
                     if "j" in coef_string:
-                        if coef_string[0] == "-":
+                        if coef_string.startswith("-("):
                             coef = -complex(coef_string[1:])
                         else:
                             coef = complex(coef_string)
-- 
2.43.0


From c74a3b3d4795221f06b76d3943b2b31e5409ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:39 +0000
Subject: [PATCH 94/98] fix: active-space integrals of one-body integrals of a
 narrower type

---
 .../openfermion/ops/representations/interaction_operator.py  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py b/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py
index 8b53811..d103af7 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/interaction_operator.py
@@ -265,7 +265,10 @@ def get_active_space_integrals(
             )
 
     # Modified one electron integrals
-    one_body_integrals_new = numpy.copy(one_body_integrals)
+    one_body_integrals_new = numpy.array(
+        one_body_integrals,
+        dtype=numpy.result_type(one_body_integrals, two_body_integrals),
+    )
     for u in active_indices:
         for v in active_indices:
             for i in occupied_indices:
-- 
2.43.0


From 64fd80a86ed9dfa2a53a9631d9169d6f8c7e8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 95/98] fix: loading a molecule replaces arrays it held before

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index c60c510..1e698a0 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -498,7 +498,6 @@ class MolecularData(object):
                 else:
                     self.filename = filename
                 self.load()
-                self.init_lazy_properties()
                 return
             else:
                 raise ValueError(
@@ -997,6 +996,9 @@ class MolecularData(object):
                 # bad user generated file
                 self.general_calculations = None  # pragma: nocover
 
+        # Arrays are pulled from the file when they are asked for
+        self.init_lazy_properties()
+
     def get_from_file(self, property_name):
         """Helper routine to re-open HDF5 file and pull out single property
 
-- 
2.43.0


From 2aa69f1dd7e3b1d367363ff8ab1f0f48cae83957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:48 +0000
Subject: [PATCH 96/98] fix: freezing orbitals given as numpy integers

---
 .../openfermion/transforms/repconversions/operator_tapering.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index 90ed266..9f81067 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -52,7 +52,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             n_swaps = 0  # Number of swaps that have been done
 
             for op in enumerate(reversed(term)):
-                if op[1][0] is item[0]:
+                if op[1][0] == item[0]:
                     n_ops += 1
 
                     # Determine number of swaps needed to bring the op in
-- 
2.43.0


From f5e64f040ad4379d8c2e6580663453be647ada3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:06 +0000
Subject: [PATCH 97/98] fix: saving circuits with numpy integers as qubits or
 numpy floats as parameters

---
 src/python/zquantum/core/circuits/_serde.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index e932794..ef58ac4 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -6,6 +6,7 @@ import re
 from functools import singledispatch
 from typing import Dict, Iterable, List, Mapping, Union
 
+import numpy as np
 import sympy
 from sympy.printing.str import StrPrinter
 from zquantum.core.typing import DumpTarget, LoadSource
@@ -26,6 +27,9 @@ class _ExprPrinter(StrPrinter):
 
 
 def serialize_expr(expr: sympy.Expr):
+    if isinstance(expr, np.floating):
+        # Narrower types are printed with too few digits.
+        expr = float(expr)
     return _ExprPrinter().doprint(expr) if isinstance(expr, sympy.Basic) else str(expr)
 
 
@@ -102,7 +106,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
         "schema": CIRCUIT_SCHEMA,
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -139,7 +143,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
@@ -170,7 +174,7 @@ def _controlled_gate_to_dict(gate: _gates.ControlledGate):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "num_control_qubits": gate.num_control_qubits,
+        "num_control_qubits": int(gate.num_control_qubits),
     }
 
 
-- 
2.43.0


From 34233e0cf68ca141c57d83467eae764ecd2e919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 98/98] fix: register size of a circuit given as a float

---
 src/python/zquantum/core/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 49fa823..fded2df 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -59,7 +59,7 @@ class Circuit:
             if cast_n_qubits <= 0:
                 raise ValueError("Non-positive value passed.")
 
-            self._n_qubits = n_qubits
+            self._n_qubits = cast_n_qubits
         else:
             self._n_qubits = _circuit_size_by_operations(self._operations)
 
-- 
2.43.0

