From 1caf531d43d90affb4103d8907bffd68fad62ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 01/45] fix: validate the statevector cache of the numpy
 backend against the circuit

The cache recorded only how many gates it contained. A backend used by another
circuit (shared backend object, dagger(copy_backends=True)) or interrupted
between updating the state and the counter gave wrong results.
---
 blueqat/backends/numpy_backend.py | 62 +++++++++++++++++++------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..e6e18da 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -65,24 +66,34 @@ class NumPyBackend(Backend):
     }
     DEFAULT_SHOTS = 1024
 
-    def __init__(self):
-        self.cache = None
-        self.cache_idx = -1
-
-    def __clear_cache(self):
-        self.cache = None
-        self.cache_idx = -1
-
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
-        if self.cache is None:
-            self.__clear_cache()
-            return
-        if len(self.cache) != 2**n_qubits:
-            self.__clear_cache()
-            return
-        if self.cache.dtype != dtype:
-            self.__clear_cache()
-            return
+    # (gates, qubits): `qubits` is the statevector after applying `gates` to |0...0>.
+    # It is replaced at once and never modified, so that it's consistent at any time.
+    _cached = None
+
+    @property
+    def cache(self):
+        return None if self._cached is None else self._cached[1]
+
+    @property
+    def cache_idx(self):
+        return -1 if self._cached is None else len(self._cached[0]) - 1
+
+    def copy(self):
+        # Cached gates are compared by identity. Share them with the copied backend.
+        return copy.deepcopy(self, {id(self._cached): self._cached})
+
+    def __load_cache(self, gates, n_qubits, dtype):
+        """Returns cached statevector and how many of the gates it contains."""
+        cached = self._cached
+        if cached is None:
+            return None, 0
+        cached_gates, qubits = cached
+        if len(qubits) != 2**n_qubits or qubits.dtype != dtype:
+            return None, 0
+        n_cached = len(cached_gates)
+        if n_cached > len(gates) or any(g is not c for g, c in zip(gates, cached_gates)):
+            return None, 0
+        return qubits, n_cached
 
     def run(self, gates, n_qubits, *args, **kwargs):
         def __parse_run_args(shots=None, returns=None, ignore_global=False, **_kwargs):
@@ -104,7 +115,8 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        gates = tuple(gates)
+        cache, n_cached = self.__load_cache(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -117,12 +129,16 @@ class NumPyBackend(Backend):
                     run_single_gate(g)
 
         for _ in range(shots):
-            ctx.prepare(self.cache)
-            for gate in gates[self.cache_idx + 1:]:
+            ctx.prepare(cache)
+            n_saved = n_cached
+            for gate in gates[n_cached:]:
                 run_single_gate(gate)
                 if ctx.save_cache:
-                    self.cache = ctx.qubits.copy()
-                    self.cache_idx += 1
+                    cache = ctx.qubits.copy()
+                    n_saved += 1
+            if n_saved > n_cached:
+                n_cached = n_saved
+                self._cached = gates[:n_cached], cache
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From d92e1d451100b1c3c318354544a9ea2a3731d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 02/45] fix: validate the statevector cache of the numba
 backend against the circuit

Same defect as in the numpy backend; in addition a gate falling back to gates
with measurement was cached halfway.
---
 blueqat/backends/_numba_backend_impl.py | 79 ++++++++++++++++---------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..880a1f9 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -46,6 +47,7 @@ class _NumbaBackendContext:
         self.n_qubits = n_qubits
         self.qubits = np.zeros(2**n_qubits, dtype)
         self.save_cache = save_cache
+        self.cache = None
         self.shots_result = Counter()
         self.cregs = None
 
@@ -365,24 +367,34 @@ class NumbaBackend(Backend):
     }
     DEFAULT_SHOTS = 1024
 
-    def __init__(self):
-        self.cache = None
-        self.cache_idx = -1
-
-    def __clear_cache(self):
-        self.cache = None
-        self.cache_idx = -1
-
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
-        if self.cache is None:
-            self.__clear_cache()
-            return
-        if len(self.cache) != 2**n_qubits:
-            self.__clear_cache()
-            return
-        if self.cache.dtype != dtype:
-            self.__clear_cache()
-            return
+    # (gates, qubits): `qubits` is the statevector after applying `gates` to |0...0>.
+    # It is replaced at once and never modified, so that it's consistent at any time.
+    _cached = None
+
+    @property
+    def cache(self):
+        return None if self._cached is None else self._cached[1]
+
+    @property
+    def cache_idx(self):
+        return -1 if self._cached is None else len(self._cached[0]) - 1
+
+    def copy(self):
+        # Cached gates are compared by identity. Share them with the copied backend.
+        return copy.deepcopy(self, {id(self._cached): self._cached})
+
+    def __load_cache(self, gates, n_qubits, dtype):
+        """Returns cached statevector and how many of the gates it contains."""
+        cached = self._cached
+        if cached is None:
+            return None, 0
+        cached_gates, qubits = cached
+        if len(qubits) != 2**n_qubits or qubits.dtype != dtype:
+            return None, 0
+        n_cached = len(cached_gates)
+        if n_cached > len(gates) or any(g is not c for g, c in zip(gates, cached_gates)):
+            return None, 0
+        return qubits, n_cached
 
     def run(self, gates, n_qubits, *args, **kwargs):
         def __parse_run_args(shots=None, returns=None, enable_cache=True, ignore_global=False,
@@ -405,10 +417,12 @@ class NumbaBackend(Backend):
 
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
+        gates = tuple(gates)
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            cache, n_cached = self.__load_cache(gates, n_qubits, dtype)
         else:
-            self.__clear_cache()
+            self._cached = None
+            cache, n_cached = None, 0
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
 
         def run_single_gate(gate):
@@ -417,20 +431,27 @@ class NumbaBackend(Backend):
             if action is not None:
                 ctx = action(gate, ctx)
             else:
+                save_cache = ctx.save_cache
                 for g in gate.fallback(n_qubits):
                     run_single_gate(g)
+                if save_cache and not ctx.save_cache:
+                    # Measured in the middle of the gate. The statevector can't be cached.
+                    ctx.cache = None
 
         for _ in range(shots):
-            ctx.prepare(self.cache)
-            cache_idx = self.cache_idx
-            for gate in gates[cache_idx + 1:]:
+            ctx.prepare(cache)
+            n_saved = n_cached
+            for gate in gates[n_cached:]:
                 run_single_gate(gate)
                 if ctx.save_cache:
-                    cache_idx += 1
-            if self.cache_idx != cache_idx:
-                self.cache_idx = cache_idx
+                    n_saved += 1
+            if n_saved > n_cached:
                 if ctx.save_cache:
-                    self.cache = ctx.qubits.copy()
+                    ctx.cache = ctx.qubits.copy()
+                if ctx.cache is not None:
+                    cache = ctx.cache
+                    n_cached = n_saved
+                    self._cached = gates[:n_cached], cache
             if ctx.cregs:
                 ctx.store_shot()
 
@@ -611,7 +632,7 @@ class NumbaBackend(Backend):
 
     def gate_measure(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
@@ -628,7 +649,7 @@ class NumbaBackend(Backend):
 
     def gate_reset(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-- 
2.43.0


From 3ebcc98ce21a5a737b1e444277291994388cefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 03/45] fix: don't leave a rejected gate in the circuit

A gate applied with an invalid index was appended before the index was
checked, and every later run of the circuit failed.
---
 blueqat/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..211f91d 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -282,9 +282,11 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        op = self.gate(self.target, *self.args, **self.kwargs)
         # ad-hoc
-        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(op)
+        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From adddca5330f03c5d36f742ea848199e3c4c0aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 04/45] fix: copying a circuit while another thread runs it
 must not raise

---
 blueqat/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 211f91d..5fb9b79 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -145,7 +145,7 @@ class Circuit:
         """
         copied = Circuit(self.n_qubits, self.ops.copy())
         if copy_backends:
-            copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backends = {k: v.copy() for k, v in list(self._backends.items())}
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
@@ -178,7 +178,7 @@ class Circuit:
 
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
-            copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backends = {k: v.copy() for k, v in list(self._backends.items())}
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
-- 
2.43.0


From dffd2e2bf46beef34fdd4cff1b69bf5c9189544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 05/45] fix: measure Pauli Y with the right sign in
 AnsatzBase.get_energy

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From a50dbd2018aae7b9d02df3b4b041c23533776bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 06/45] fix: make the sparse Hamiltonian for all qubits of the
 ansatz

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..66aea23 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From 30fb2d148d898017621261c1032de2c255fa34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 07/45] fix: measurement sampler reported other qubits, lost
 counts and modified the circuit

---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 66aea23..f25eada 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,13 +244,15 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
-            return tuple(bits[m] for m in meas)
+            return tuple(int(bits[m]) for m in meas)
 
         meas = tuple(meas)
+        circuit = circuit.copy()
         circuit.measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
-- 
2.43.0


From 2130039283c51cac67245a86502b9686f6bd6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 08/45] fix: Qiskit sampler lost counts and constant terms and
 modified the circuit

---
 blueqat/vqe.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index f25eada..60e51dd 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -304,17 +304,20 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
         # This is workaround for this IBM's specifications.
         if bits.startswith("0x"):
             bits = int(bits, base=16)
-            bits = "0"*100 + format(bits, "b")
-        bits = [int(x) for x in bits[::-1]]
+            bits = format(bits, "b")
+        bits = [int(x) for x in ("0"*100 + bits)[::-1]]
         return tuple(bits[m] for m in meas)
 
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
+            return {(): 1.0}
+        circuit = circuit.copy()
         circuit.measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From ef7654be106f5618c0f0061a803f903477d77c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 09/45] fix: unregister_backend looked the name up in the gate
 set

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 5fb9b79..393051c 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -427,7 +427,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From c71493d98b87294f6e3f46c6980c3e112adb1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 10/45] fix: allow Circuit.set_default_backend(None), as
 documented

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 393051c..b2b1a10 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From a403af2f0af5eaa175666db2b18dc29c3346d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 11/45] fix: return the import error of qiskit for
 returns='_exception'

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From fc6842d2be22ac44083ec4294107da16b43d74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 12/45] fix: comparing a QUBO given as array with [] raises or
 is wrong

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..3c2f7b5 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1 == 0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From 84994183ed3bffbd3d22a7753e99c9dbdaccc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 13/45] fix: linear terms sent to the D-Wave solver belong to
 the wrong qubits

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 3c2f7b5..c0f4e95 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -576,11 +576,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From a173e3cffcec03a68eb9c79ba3b2aca8d9de654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 14/45] fix: copies of a circuit use the same QASM runner
 instead of a deep copy of it

---
 blueqat/backends/qasm_parser_backend_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueqat/backends/qasm_parser_backend_generator.py b/blueqat/backends/qasm_parser_backend_generator.py
index a9304d4..dd88c63 100644
--- a/blueqat/backends/qasm_parser_backend_generator.py
+++ b/blueqat/backends/qasm_parser_backend_generator.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
+
 from ..gate import *
 from .backendbase import Backend
 from .qasm_output_backend import QasmOutputBackend
@@ -28,6 +30,9 @@ class QasmParsableBackend(Backend):
         self.to_qasm = QasmOutputBackend()
         self.qasm_runner = qasm_runner
 
+    def copy(self):
+        return copy.copy(self)
+
     def run(self, gates, n_qubits, *args, **kwargs):
         qasm = self.to_qasm.run(gates, n_qubits)
         return self.qasm_runner(qasm, *args, **kwargs)
-- 
2.43.0


From 4250aeeffaf7475fab6eca8f74bd20cbaecf4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 15/45] fix: state vector sampler raised when a probability was
 rounded to more than 1

---
 blueqat/vqe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 60e51dd..f29f4e6 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -263,6 +263,8 @@ def get_state_vector_sampler(n_sample):
         val = 0.0
         e = expect(circuit.run(returns="statevector"), meas)
         bits, probs = zip(*e.items())
+        # Rounding errors shall not make a probability greater than 1.
+        probs = np.array(probs) / np.sum(probs)
         dists = np.random.multinomial(n_sample, probs) / n_sample
         return dict(zip(tuple(bits), dists))
     return sampling_by_measurement
-- 
2.43.0


From 3e3d9450286c0dee04c1159ee715f4589acdbc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 16/45] fix: submit cu2 to QASM runners as cu3, which
 qelib1.inc defines

---
 blueqat/backends/qasm_parser_backend_generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/qasm_parser_backend_generator.py b/blueqat/backends/qasm_parser_backend_generator.py
index dd88c63..1edd9e2 100644
--- a/blueqat/backends/qasm_parser_backend_generator.py
+++ b/blueqat/backends/qasm_parser_backend_generator.py
@@ -18,6 +18,12 @@ from ..gate import *
 from .backendbase import Backend
 from .qasm_output_backend import QasmOutputBackend
 
+class _Qelib1OutputBackend(QasmOutputBackend):
+    """Output OpenQASM which only uses the gates defined in qelib1.inc."""
+    def gate_cu2(self, gate, ctx):
+        # qelib1.inc doesn't have cu2.
+        return self._run_gates(gate.fallback(ctx[1]), ctx[1], ctx)
+
 class QasmParsableBackend(Backend):
     """Backend for third-party library which can read OpenQASM """
     def __init__(self, qasm_runner):
@@ -27,7 +33,7 @@ class QasmParsableBackend(Backend):
             qasm_runner (function (qasm: str, *args, **kwargs) -> Result):
                 An function which receives OpenQASM and some arguments and returns a result.
         """
-        self.to_qasm = QasmOutputBackend()
+        self.to_qasm = _Qelib1OutputBackend()
         self.qasm_runner = qasm_runner
 
     def copy(self):
-- 
2.43.0


From d9d373e86aec2fbe42985af580690d86e530cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 17/45] fix: sqa with one Trotter slice let spins couple to
 themselves, which suppressed every move

---
 blueqat/wq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index c0f4e95..b7c998d 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -551,7 +551,8 @@ class Opt:
                     else:
                         dE += -2*q[y][j]*q[y][x]*J[j][x] / self.tro
 
-                dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
+                if self.tro > 1: # The only slice has no neighbors.
+                    dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
 
                 if dE < 0 or np.exp(-dE/self.Tf) > np.random.rand():
                     q[y][x] *= -1
-- 
2.43.0


From e5ea4893b5056028814a690b344e5ad86ae624fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 18/45] fix: qiskit sampler: read short keys of registers wider
 than 100 qubits

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index f29f4e6..bcfd2a0 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -307,7 +307,7 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
         if bits.startswith("0x"):
             bits = int(bits, base=16)
             bits = format(bits, "b")
-        bits = [int(x) for x in ("0"*100 + bits)[::-1]]
+        bits = [int(x) for x in bits.zfill(max(meas) + 1)[::-1]]
         return tuple(bits[m] for m in meas)
 
     def sampling(circuit, meas):
-- 
2.43.0


From c4cc8240835ed5916c1d695f0765dfb403b6a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 19/45] fix: hash of the Pauli identity raised AttributeError

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..ac1b817 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,6 +243,8 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
+        if self.is_identity:
+            return hash(self.op)
         return hash((self.op, _n(self)))
 
     def __eq__(self, other):
-- 
2.43.0


From 84505f0a645f0a4b812599878e6db7e2a86d3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 20/45] fix: sums and differences of Pauli expressions lost
 repeated terms

---
 blueqat/pauli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ac1b817..1cd9522 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -668,7 +668,11 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = {}
+        for op, coeff in self.terms:
+            if coeff:
+                terms[op] = terms[op] + coeff if op in terms else coeff
+        return terms
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From 28c76d8b18624edff35846be03931bec01bc5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 21/45] fix: comparing a Pauli term with an expression or with
 another type

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 1cd9522..2a73ac7 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -499,6 +499,10 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
         return _TermTuple.__eq__(self, other) or \
                _TermTuple.__eq__(self.simplify(), other.simplify())
 
-- 
2.43.0


From 91a4a4c3beb23900d75e6e1c1b4271c98bdf9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 22/45] fix: time evolution of terms with an odd number of Y
 had the opposite sign

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 2a73ac7..6b9382b 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -607,7 +607,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -618,7 +618,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From 86a7c1475b8ef8ec95d612cbb5b1086abce646e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 23/45] fix: matrix of a Pauli expression which is zero

---
 blueqat/pauli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 6b9382b..bad24a5 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -888,6 +888,9 @@ class Expr(_ExprTuple):
         expr = self.simplify()
         grpkey = lambda pau: sum(1 << op.n for op in pau.ops if op.op in 'XY')
         dim = 2 ** n_qubits
+        if not expr.terms:
+            m = scipy.sparse.csc_matrix((dim, dim), dtype=complex)
+            return m.toarray() if sparse is None else _sparse_types[sparse](m)
         is_csr = sparse == 'csr'
         gr_terms = [list(g) for _, g in groupby(sorted(expr.terms, key=grpkey), key=grpkey)]
         n_groups = len(gr_terms)
-- 
2.43.0


From 2695a44e01b2f1f33214cb59924c8b6ee2e3d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 24/45] fix: comparing X, Y or Z with the Pauli identity raised
 AttributeError

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index bad24a5..0cd734d 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -251,7 +251,7 @@ class _PauliImpl:
         if isinstance(other, _PauliImpl):
             if self.is_identity:
                 return other.is_identity
-            return _n(self) == _n(other) and self.op == other.op
+            return self.op == other.op and _n(self) == _n(other)
         if isinstance(other, Term):
             return self.to_term() == other
         if isinstance(other, Expr):
-- 
2.43.0


From 31d80bc8348164e47204dd0f3323d51e0d61bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:47 +0000
Subject: [PATCH 25/45] fix: Pauli terms with coefficient 0 were unequal to
 each other

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 0cd734d..a9c782b 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -503,6 +503,8 @@ class Term(_TermTuple):
             return self.to_expr() == other
         if not isinstance(other, Term):
             return NotImplemented
+        if self.coeff == 0 or other.coeff == 0:
+            return self.coeff == other.coeff
         return _TermTuple.__eq__(self, other) or \
                _TermTuple.__eq__(self.simplify(), other.simplify())
 
-- 
2.43.0


From d624648f081b3cf4663fd1b6997a96c4cb4f2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 26/45] fix: sympy backend applied a gate once to a qubit named
 twice among its targets

---
 blueqat/backends/sympy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..cc40b32 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -77,7 +77,7 @@ class SympyBackend(Backend):
         gates = []
         for idx in range(n_qubits):
             if idx in targets:
-                gates.append(matrix_of_gate)
+                gates.append(matrix_of_gate ** targets.count(idx))
             else:
                 gates.append(eye(2))
         return reduce(TensorProduct, reversed(gates))
-- 
2.43.0


From 5e6a75a059c392851b933c14ec3be8c091e8875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 27/45] fix: sympy unitary with ignore_global was divided by a
 diagonal element which is zero but not simplified

---
 blueqat/backends/sympy_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index cc40b32..741dad3 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -34,6 +34,13 @@ def _angle_simplify(ang):
     return ang
 
 
+def _is_zero(expr):
+    """Test whether expr is zero, also when it is not simplified to 0."""
+    symbols_in_expr = sorted(expr.free_symbols, key=str)
+    values = {sym: 0.618 + 0.271 * i for i, sym in enumerate(symbols_in_expr)}
+    return abs(complex(expr.evalf(subs=values))) < 1e-10
+
+
 class _SympyBackendContext:
     def __init__(self, n_qubits, ignore_global):
         self.n_qubits = n_qubits
@@ -165,6 +172,6 @@ class SympyBackend(Backend):
         if ctx.ignore_global:
             mat = ctx.matrix_of_circuit
             for i in range(2 ** ctx.n_qubits):
-                if mat[i, i] != 0:
+                if not _is_zero(mat[i, i]):
                     return mat * (abs(mat[i, i]) / mat[i, i])
         return ctx.matrix_of_circuit
-- 
2.43.0


From 253d40b4eb17af96bb0556e39970d8dd3b66608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:43 +0000
Subject: [PATCH 28/45] fix: a negative index beyond the register is refused,
 and not exported as q[-3]

---
 blueqat/gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..21be9a9 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -652,6 +652,8 @@ def slicing_singlevalue(arg, length):
             raise TypeError("indices must be integers or slices, not " + arg.__class__.__name__)
         if i < 0:
             i += length
+            if i < 0:
+                raise IndexError(f"Qubit index {i - length} is out of range for {length} qubit(s).")
         yield i
 
 
-- 
2.43.0


From 4b0a61638cc2f4a9e3c6cfd666acd7ea23b99597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 29/45] fix: negative qubit indices of ccx, ccz and cswap, as
 for all other gates

---
 blueqat/backends/_numba_backend_impl.py |  4 ++--
 blueqat/backends/numpy_backend.py       |  4 ++--
 blueqat/backends/qasm_output_backend.py |  2 +-
 blueqat/backends/qgate_backend.py       |  2 +-
 blueqat/gate.py                         | 18 +++++++++++++-----
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 880a1f9..ea6605b 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -603,13 +603,13 @@ class NumbaBackend(Backend):
     def gate_ccz(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _czgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _czgate(qubits, n_qubits, np.array(list(gate.target_iter(n_qubits)), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_ccx(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _cxgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _cxgate(qubits, n_qubits, np.array(list(gate.target_iter(n_qubits)), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_u1(self, gate, ctx):
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index e6e18da..469cab7 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -373,7 +373,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccz(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = gate.target_iter(ctx.n_qubits)
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
         i = ctx.indices
@@ -384,7 +384,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccx(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = gate.target_iter(ctx.n_qubits)
         ctx = self.gate_h(HGate(t), ctx)
         ctx = self.gate_ccz(CCZGate(gate.targets), ctx)
         ctx = self.gate_h(HGate(t), ctx)
diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index 9279348..d596449 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -117,7 +117,7 @@ class QasmOutputBackend(Backend):
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-        c0, c1, t = gate.targets
+        c0, c1, t = gate.target_iter(ctx[1])
         ctx[0].append(f"{gate.lowername} q[{c0}],q[{c1}],q[{t}];")
         return ctx
 
diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index bf03525..9533b55 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -123,7 +123,7 @@ class QgateBackend(Backend) :
             elif isinstance(gate, bqgate.ToffoliGate) :
                 gt = typeinfo[0](*gate.params)
                 g = model.Gate(gt)
-                c0, c1, t = gate.targets
+                c0, c1, t = gate.target_iter(self.n_qubits)
                 ctrls = (self.qregs[c0], self.qregs[c1])
                 qreg = self.qregs[t]
                 g.set_ctrllist(ctrls)
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 21be9a9..84ee3aa 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -565,7 +565,15 @@ class CU3Gate(TwoQubitGate):
             ])
 
 
-class ToffoliGate(Gate):
+class ThreeQubitGate(Gate):
+    """Abstract quantum gate class for 3 qubits gate."""
+
+    def target_iter(self, n_qubits):
+        """The generator which yields the three qubits."""
+        return slicing(self.targets, n_qubits)
+
+
+class ToffoliGate(ThreeQubitGate):
     """Toffoli (CCX) gate"""
     lowername = "ccx"
 
@@ -573,7 +581,7 @@ class ToffoliGate(Gate):
         return self
 
     def fallback(self, n_qubits):
-        c1, c2, t = self.targets
+        c1, c2, t = self.target_iter(n_qubits)
         return [
             HGate(t),
             CXGate((c2, t)),
@@ -593,7 +601,7 @@ class ToffoliGate(Gate):
         ]
 
 
-class CCZGate(Gate):
+class CCZGate(ThreeQubitGate):
     """2-Controlled Z gate"""
     lowername = "ccz"
 
@@ -601,7 +609,7 @@ class CCZGate(Gate):
         return self
 
 
-class CSwapGate(Gate):
+class CSwapGate(ThreeQubitGate):
     """Controlled SWAP gate"""
     lowername = "cswap"
 
@@ -610,7 +618,7 @@ class CSwapGate(Gate):
 
     def fallback(self, n_qubits):
         # TODO: test
-        c, t1, t2 = self.targets
+        c, t1, t2 = self.target_iter(n_qubits)
         return [CXGate((t2, t1)),
                 ToffoliGate((c, t1, t2)),
                 CXGate((t2, t1))]
-- 
2.43.0


From 23ab3906ed8bebe360ab90537ac8c028018423ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:39 +0000
Subject: [PATCH 30/45] fix: ccx and cswap are refused unless they have three
 different qubits, as two-qubit gates are

---
 blueqat/gate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 84ee3aa..0074a63 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -570,7 +570,12 @@ class ThreeQubitGate(Gate):
 
     def target_iter(self, n_qubits):
         """The generator which yields the three qubits."""
-        return slicing(self.targets, n_qubits)
+        qubits = list(slicing(self.targets, n_qubits))
+        if len(qubits) != 3:
+            raise ValueError("Three qubits are required.")
+        if len(set(qubits)) != 3:
+            raise ValueError("Control qubits and target qubits are must be different.")
+        return iter(qubits)
 
 
 class ToffoliGate(ThreeQubitGate):
-- 
2.43.0


From 189ada6948b895a355dcee1ce851e4b0b549334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 31/45] fix: tuples of controls and targets, as in cx[(0, 1),
 (2, 3)]

---
 blueqat/gate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 0074a63..d5f07f9 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -52,6 +52,8 @@ class Gate(ABC):
                 else:
                     step = str(obj.step.__index__())
                     return f'{start}:{stop}:{step}'
+            elif isinstance(obj, tuple):
+                return f"({', '.join(_slice_to_str(o) for o in obj)}{',' if len(obj) == 1 else ''})"
             else:
                 return str(obj.__index__())
 
@@ -674,7 +676,7 @@ def slicing(args, length):
     """Internally used."""
     if isinstance(args, tuple):
         for arg in args:
-            yield from slicing_singlevalue(arg, length)
+            yield from slicing(arg, length)
     else:
         yield from slicing_singlevalue(args, length)
 
@@ -706,6 +708,8 @@ def get_maximum_index(indices):
             if idx.stop is not None:
                 stop = idx.stop.__index__()
             return max(start, stop - 1)
+        elif isinstance(idx, tuple):
+            return get_maximum_index(idx)
         else:
             return idx.__index__()
     if isinstance(indices, tuple):
-- 
2.43.0


From d2768e4acbe534442239bd8d910c582fc2bb4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 32/45] fix: wq.mul(a, b) is the QUBO of the product also when
 a and b differ

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index b7c998d..7983f48 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -239,7 +239,7 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From 87ede6e22f80a78afa1762c4691d877499abee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 33/45] fix: wq.net no longer replaces the edges in the
 caller's list

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 7983f48..cda3112 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -261,8 +261,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From 0a316797364245ba171a028a7a2e5feca59befe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 34/45] fix: optx and optm of higher powers and of variables
 without a product; no symbols are put among wq's globals

---
 blueqat/wq.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index cda3112..bb37373 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -28,31 +28,26 @@ def pauli(qubo):
             h += qubo_bit(i)*qubo_bit(j) * (qubo[i][j] + qubo[j][i])
     return h
 
+def _reduce_powers(expr):
+    """Replace powers of symbols, which stand for 0 or 1, by the symbols."""
+    return expr.replace(lambda e: e.is_Pow and e.base.is_Symbol and e.exp.is_Integer and e.exp.is_positive,
+                        lambda e: e.base)
+
 def optx(quboh): 
     try:
         import sympy
     except ImportError:
         raise ImportError("optx() requires sympy. Please install before call this function.")
 
-    optx_E = sympy.expand(quboh)
-    symbol_list = list(optx_E.free_symbols)
-    sympy.var(' '.join(map(str,symbol_list)),positive=True)
-    for i in range(len(symbol_list)):
-        optx_E = optx_E.subs(symbol_list[i]*symbol_list[i],symbol_list[i])
-    return optx_E
+    return _reduce_powers(sympy.expand(quboh))
 
 def optm(quboh,numM):
     try:
         import sympy
     except ImportError:
         raise ImportError("optm() requires sympy. Please install before call this function.") 
-    optm_E = sympy.expand(quboh) 
+    optm_E = _reduce_powers(sympy.expand(quboh))
     symbol_list = ["q"+str(i) for i in range(numM)] 
-    sympy.var(' '.join(symbol_list),positive=True) 
-
-    symbol_list_proto = list(optm_E.free_symbols) 
-    for i in range(len(symbol_list_proto)): 
-        optm_E = optm_E.subs(symbol_list_proto[i]*symbol_list_proto[i],symbol_list_proto[i]) 
 
     optm_M = np.zeros((numM,numM)) 
 
@@ -60,8 +55,7 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        optm_M[i][i] = optm_E.coeff(symbol_list[i]).as_coeff_Add()[0]
 
     return optm_M
 
-- 
2.43.0


From c79b77eda071e3c3ab7456083a6b89de94efee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 35/45] fix: qn_to_qubo lost products with coefficient 1, and
 failed for squares and for variables with coefficient 1

---
 blueqat/wq.py | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index bb37373..14f59ff 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -151,38 +151,17 @@ def qn_to_qubo(expr):
     except ImportError:
         raise ImportError("This function requires sympy. Please install it.")
     assert type(expr) == sympy.Add
+    expr = _reduce_powers(sympy.expand(expr))
     to_i = lambda s: int(str(s)[1:])
     max_i = max(map(to_i, expr.free_symbols)) + 1
     qubo = [[0.] * max_i for _ in range(max_i)]
-    for arg in expr.args:
+    for arg in sympy.Add.make_args(expr):
         syms = arg.free_symbols
         assert len(syms) <= 2
-        if len(syms) == 2:
-            assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j]
-        if len(syms) == 1:
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+        if syms:
+            i = min(map(to_i, syms))
+            j = max(map(to_i, syms))
+            qubo[i][j] += float(arg.as_coeff_Mul()[0])
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From 82d12ef0f15495aef05169f85e996329408dc1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 36/45] fix: Opt.add of expressions with gaps among their
 variables and with powers of several variables

---
 blueqat/wq.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 14f59ff..f9198e5 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -411,7 +411,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max((int(repr(i)[1:]) for i in qubo.free_symbols), default=-1) + 1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
@@ -431,13 +431,7 @@ class Opt:
             import sympy
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
-        f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
-
-        for i in range(deg):
-            for j in f.free_symbols:
-                f = f.subs(j**(deg-i),j)
-        return f
+        return _reduce_powers(sympy.expand(qubo))
 
     def add(self,qubo,M=1):
         len1 = len(self.qubo)
-- 
2.43.0


From e08f19526a849573fc4dd0d63f8f425a83574dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 37/45] fix: Opt.add ignored a QUBO of another size than the
 present one

---
 blueqat/wq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index f9198e5..9169811 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -442,6 +442,11 @@ class Opt:
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
         elif(len1 == 0):
             self.qubo = M*np.array(qubo)
+        elif(len2 != 0):
+            total = np.zeros((max(len1,len2),max(len1,len2)))
+            total[:len1,:len1] += np.array(self.qubo)
+            total[:len2,:len2] += M*np.array(qubo)
+            self.qubo = total
         return self
 
     def run(self,shots=1,sampler="normal",targetT=0.02,verbose=False):
-- 
2.43.0


From 25a039607dbf60fd9cee3a5f772490ee16e704ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 38/45] fix: the dagger of a two-qubit gate on several pairs
 applies them in reverse order

---
 blueqat/gate.py | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index d5f07f9..52448ec 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -3,6 +3,7 @@
 This module is internally used.
 """
 
+import copy
 import math
 from abc import ABC
 from typing import List
@@ -85,9 +86,24 @@ class OneQubitGate(Gate):
 class TwoQubitGate(Gate):
     """Abstract quantum gate class for 2 qubits gate."""
 
+    # Whether the last pair comes first. The order matters when pairs have common qubits.
+    _pairs_reversed = False
+
     def control_target_iter(self, n_qubits):
         """The generator which yields the tuples of (control, target) qubits."""
-        return qubit_pairs(self.targets, n_qubits)
+        pairs = qubit_pairs(self.targets, n_qubits)
+        return reversed(list(pairs)) if self._pairs_reversed else pairs
+
+    def _with_reversed_pairs(self, inverse: 'Gate') -> 'Gate':
+        """Make `inverse`, which is the inverse for each pair, the inverse of `self`."""
+        if not isinstance(self.targets, tuple) or all(hasattr(t, '__index__') for t in self.targets):
+            return inverse # There is only one pair.
+        inverse = copy.copy(inverse)
+        inverse._pairs_reversed = not self._pairs_reversed
+        return inverse
+
+    def _str_targets(self) -> str:
+        return super()._str_targets() + ('(reversed)' if self._pairs_reversed else '')
 
     def _make_fallback_for_control_target_iter(self, n_qubits, fallback):
         gates = []
@@ -301,7 +317,7 @@ class CXGate(TwoQubitGate):
     lowername = "cx"
 
     def dagger(self):
-        return self
+        return self._with_reversed_pairs(self)
 
 
 class CZGate(TwoQubitGate):
@@ -309,7 +325,7 @@ class CZGate(TwoQubitGate):
     lowername = "cz"
 
     def dagger(self):
-        return self
+        return self._with_reversed_pairs(self)
 
 
 class CYGate(TwoQubitGate):
@@ -317,7 +333,7 @@ class CYGate(TwoQubitGate):
     lowername = "cy"
 
     def dagger(self):
-        return self
+        return self._with_reversed_pairs(self)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -332,7 +348,7 @@ class CHGate(TwoQubitGate):
     lowername = "ch"
 
     def dagger(self):
-        return self
+        return self._with_reversed_pairs(self)
 
     def fallback(self, n_qubits):
         # Ignores global phase
@@ -352,7 +368,7 @@ class CRXGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRXGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(CRXGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -372,7 +388,7 @@ class CRYGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRYGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(CRYGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -392,7 +408,7 @@ class CRZGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRZGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(CRZGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -412,7 +428,7 @@ class CPhaseGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CPhaseGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(CPhaseGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -430,7 +446,7 @@ class RXXGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return RXXGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(RXXGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         # TODO: test
@@ -452,7 +468,7 @@ class RYYGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return RYYGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(RYYGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         # TODO: test
@@ -474,7 +490,7 @@ class RZZGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return RZZGate(self.targets, -self.theta, **self.kwargs)
+        return self._with_reversed_pairs(RZZGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         # TODO: test
@@ -490,7 +506,7 @@ class SwapGate(TwoQubitGate):
     lowername = "swap"
 
     def dagger(self):
-        return self
+        return self._with_reversed_pairs(self)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -513,7 +529,7 @@ class CU1Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU1Gate(self.targets, -self.lambd, **self.kwargs)
+        return self._with_reversed_pairs(CU1Gate(self.targets, -self.lambd, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -536,7 +552,7 @@ class CU2Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs)
+        return self._with_reversed_pairs(CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -554,7 +570,7 @@ class CU3Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)
+        return self._with_reversed_pairs(CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
-- 
2.43.0


From 25bdfd550566d201984593d603920eef9d68b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 39/45] fix: a NumPy number on the left of a Pauli operator,
 term or expression gave an array or an error

---
 blueqat/pauli.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index a9c782b..fbdb3ef 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -227,6 +227,9 @@ def _GetItem(self_, n):
     return type(self_)(n)
 
 class _PauliImpl:
+    # Let NumPy's numbers leave the arithmetic to this class instead of treating it as a sequence.
+    __array_ufunc__ = None
+
     @property
     def op(self):
         """Return operator type (X, Y, Z, I)"""
@@ -373,6 +376,9 @@ class Term(_TermTuple):
     it can be consider the time evolution of the term (with real coefficient)
     without Suzuki-Trotter expansion.
     """
+    # Let NumPy's numbers leave the arithmetic to this class instead of treating it as a sequence.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -653,6 +659,9 @@ class Term(_TermTuple):
 
 _ExprTuple = namedtuple("_ExprTuple", "terms")
 class Expr(_ExprTuple):
+    # Let NumPy's numbers leave the arithmetic to this class instead of treating it as a sequence.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_number(num):
         """Make new Expr from a number"""
-- 
2.43.0


From ddf5562837c4f0b6c95aaec3fb851cd1910bf2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 40/45] fix: Term and Expr could not be divided by complex and
 NumPy numbers

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index fbdb3ef..27f1658 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -458,7 +458,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From 4a620178c10cf0ad0014c514aaefa5b3aceadb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:29 +0000
Subject: [PATCH 41/45] fix: leave cu2 to its fallback without depending on the
 layout of the QASM output's context

---
 blueqat/backends/qasm_parser_backend_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blueqat/backends/qasm_parser_backend_generator.py b/blueqat/backends/qasm_parser_backend_generator.py
index 1edd9e2..c8a7ab9 100644
--- a/blueqat/backends/qasm_parser_backend_generator.py
+++ b/blueqat/backends/qasm_parser_backend_generator.py
@@ -20,9 +20,8 @@ from .qasm_output_backend import QasmOutputBackend
 
 class _Qelib1OutputBackend(QasmOutputBackend):
     """Output OpenQASM which only uses the gates defined in qelib1.inc."""
-    def gate_cu2(self, gate, ctx):
-        # qelib1.inc doesn't have cu2.
-        return self._run_gates(gate.fallback(ctx[1]), ctx[1], ctx)
+    # qelib1.inc doesn't have cu2. The fallback is used instead.
+    gate_cu2 = None
 
 class QasmParsableBackend(Backend):
     """Backend for third-party library which can read OpenQASM """
-- 
2.43.0


From 42cb3ea8cc9eef3f4bb9badb0b688b5b9ed14a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:08 +0000
Subject: [PATCH 42/45] fix: rbm_model_qubo and fit failed with shots=1

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 9169811..fbc36c0 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -571,6 +571,8 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


From 21ce94c3453cb94fb012fd0a2752ea60c4323a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:08 +0000
Subject: [PATCH 43/45] fix: rbm_data_qubo failed for visible values in a tuple
 or an array

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index fbc36c0..822aefb 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -319,7 +319,7 @@ def rbm_hmodel(vdata,dbms_mat1):
 
 def rbm_data_qubo(vdata,dbms_mat1):
     hdata = rbm_hmodel(vdata,dbms_mat1)
-    data_qubo = np.diag(vdata + hdata)
+    data_qubo = np.diag(list(vdata) + hdata)
     vdataN = len(vdata)
     dbmsN = len(dbms_mat1)
     for i in range(vdataN):
-- 
2.43.0


From 82a8463e89bf682894613679f4d4425a84800246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:08 +0000
Subject: [PATCH 44/45] fix: the energies recorded by sqa had the slice
 coupling's sign wrong and kept those of earlier runs

---
 blueqat/wq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 822aefb..991f3c9 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -175,7 +175,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
@@ -510,6 +510,7 @@ class Opt:
         J = self.reJ()
         N = len(J)
         q = np.random.choice([-1,1], self.tro*N).reshape(self.tro, N)
+        self.E = []
         self.E.append(Ei_sqa(q, J, self.Tf, self.tro, G) + self.ep)
         while G>self.Gf:
             for _ in range(self.ite):
-- 
2.43.0


From 0550153e15be9302d08b95a7e5cbe6ace8d85f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:08 +0000
Subject: [PATCH 45/45] fix: Vqe.result raised AttributeError

---
 blueqat/vqe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index bcfd2a0..b503fff 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -180,6 +180,7 @@ class Vqe:
             options={"ftol": 5.0e-2, "xtol": 5.0e-2, "maxiter": 1000}
         )
         self.sampler = sampler
+        self._result = None
 
     def run(self, verbose=False):
         objective = self.ansatz.get_objective(self.sampler)
@@ -193,7 +194,9 @@ class Vqe:
             objective = verbose_objective(objective)
         params = self.minimizer(objective, self.ansatz.n_params)
         c = self.ansatz.get_circuit(params)
-        return VqeResult(self, params, c)
+        result = VqeResult(self, params, c)
+        self._result = result
+        return result
 
     @property
     def result(self):
-- 
2.43.0

