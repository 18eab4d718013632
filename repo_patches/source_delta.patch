From 739c1734a28b8d7b319edcfc51d56b156133151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 01/62] fix: subset_fitter selected the wrong qubits

State labels have qubit_list[0] as their rightmost character, but
CompleteMeasFitter.subset_fitter indexed them from the left, so the
calibration of other qubits was returned.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..e845800 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # the i-th qubit of a list is the i-th character from the right
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From aebd50a2131b7bb8018d3938cd38cc302a1ece72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:55 +0000
Subject: [PATCH 02/62] fix: expectation values paired clbits with the wrong
 qubits

Marginalised counts have their bits in increasing order, so the order of an
unsorted clbits list, and with it the pairing with qubits documented as
circuit.measure(qubits, clbits), was lost.
---
 qiskit/ignis/mitigation/expval/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..6de6c1d 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -79,7 +79,7 @@ def expectation_value(counts: Counts,
 
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _marginal_clbits(counts, clbits)
 
     # Get counts shots and probabilities
     probs = np.array(list(counts.values()))
@@ -121,7 +121,7 @@ def counts_probability_vector(
     """
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _marginal_clbits(counts, clbits)
 
     # Get total number of qubits
     if num_qubits is None:
@@ -225,6 +225,14 @@ def assignment_matrix(cal_data: Dict[int, Dict[int, int]],
     return amat / renorm
 
 
+def _marginal_clbits(counts: Counts, clbits: List[int]) -> Dict[str, int]:
+    """Marginalize counts to clbits, where clbits[i] is bit i of the result"""
+    counts = marginal_counts(counts, meas_qubits=clbits)
+    order = np.argsort(np.argsort(clbits))[::-1]
+    return {''.join([key[-1 - i] for i in order]): val
+            for key, val in counts.items()}
+
+
 def _expval_with_stddev(coeffs: np.ndarray,
                         probs: np.ndarray,
                         shots: int) -> Tuple[float, float]:
-- 
2.43.0


From c7e78a0d77a7ef8a9dc321a27d16b4b81340e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 03/62] fix: matrices of the tensored mitigator for a qubit
 subset

The remaining qubits of the list were used as positions in the list, so
[1, 2] raised and [0, 2, 1] returned the matrices of other qubits.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From de6a603688afd4af4c50eaf91f4178d72502a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 04/62] fix: tensored mitigator with counts of fewer qubits

With qubits=None the counts are documented to be of qubits 0..n-1, but the
matrices of all calibrated qubits were contracted with them.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 9793868..53e85e1 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -105,7 +105,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is not None:
             ainvs = self._mitigation_mats[list(qubits)]
         else:
-            ainvs = self._mitigation_mats
+            ainvs = self._mitigation_mats[:num_qubits]
 
         # Get operator coeffs
         if diagonal is None:
-- 
2.43.0


From 70ae35f986982987238e1dc2273182f8a2ef4aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 05/62] fix: diagonal observables with an unsorted qubit list

The complete and CTMP mitigators reorder the probabilities by qubit but not
the diagonal, so the observable acted on the wrong bits.
---
 qiskit/ignis/mitigation/expval/complete_mitigator.py | 5 ++++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 4 +++-
 qiskit/ignis/mitigation/expval/utils.py              | 6 ++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..e733a34 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -18,7 +18,8 @@ from typing import Optional, List, Dict, Tuple
 import numpy as np
 
 from qiskit.exceptions import QiskitError
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev,
+                    _sort_diagonal)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -102,6 +103,8 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Get operator coeffs
         if diagonal is None:
             diagonal = self._z_diagonal(2 ** num_qubits)
+        else:
+            diagonal = _sort_diagonal(diagonal, qubits)
         # Apply transpose of mitigation matrix
         coeffs = mit_mat.T.dot(diagonal)
 
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..c8abd8c 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,7 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector
+from .utils import counts_probability_vector, _sort_diagonal
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -123,6 +123,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Ensure diagonal is a numpy vector so we can use fancy indexing
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
+        else:
+            diagonal = _sort_diagonal(diagonal, qubits)
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
 
         # Get arrays from CSC sparse matrix format
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index 6de6c1d..bdeffa8 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -233,6 +233,12 @@ def _marginal_clbits(counts: Counts, clbits: List[int]) -> Dict[str, int]:
             for key, val in counts.items()}
 
 
+def _sort_diagonal(diagonal: np.ndarray, qubits: List[int]) -> np.ndarray:
+    """Reorder the bits of a diagonal by increasing order of their qubits"""
+    axes = [len(qubits) - 1 - i for i in reversed(np.argsort(qubits))]
+    return np.reshape(diagonal, len(qubits) * [2]).transpose(axes).ravel()
+
+
 def _expval_with_stddev(coeffs: np.ndarray,
                         probs: np.ndarray,
                         shots: int) -> Tuple[float, float]:
-- 
2.43.0


From 829ef215f85f75a13bb6c59948d3f9fae6a8c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:13 +0000
Subject: [PATCH 06/62] fix: CTMP mitigator used removed numpy aliases

np.int and np.float no longer exist, so every CTMP mitigation raised
AttributeError.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index c8abd8c..11aa230 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -133,8 +133,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -186,7 +186,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -303,7 +303,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From 5d8129f26c02518b890de5d3c61d4784e65ae91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 07/62] fix: CTMP single-qubit rates and matrices were
 bit-flipped

The fitter read the 0 -> 1 rate from the 1 -> 0 transition and vice versa,
and the assignment and mitigation matrices flipped all bits to hide it, so
mitigated values and the matrices of two-qubit generators were wrong.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  4 ++--
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..89e2b19 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -67,10 +67,10 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     """Compute the 1q error rate for a given generator."""
     # pylint: disable=invalid-name
     rate_list = []
-    if a == '0' and b == '1':
+    if a == '1' and b == '0':
         g1 = ('00', '10')
         g2 = ('01', '11')
-    elif a == '1' and b == '0':
+    elif a == '0' and b == '1':
         g1 = ('10', '00')
         g2 = ('11', '01')
     else:
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 11aa230..426d994 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -208,11 +208,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
-        gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
+        gmat = self.generator_matrix(qubits).toarray()
         return la.expm(-gmat)
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -228,11 +224,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
-        gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
+        gmat = self.generator_matrix(qubits).toarray()
         return la.expm(gmat)
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
-- 
2.43.0


From 621220c9e87675a5cb9632ea831cdf445f8a04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 08/62] fix: combine_counts modified its first argument

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..7194c91 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From 225b8db66e31c85dd1faefb19576485f6532b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 09/62] fix: keys of expectation_counts

---
 qiskit/ignis/verification/tomography/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 7194c91..b5e2c40 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -173,7 +173,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
     shots = np.sum(list(counts.values()))
 
     # Compute measured operators subsets in a data set
-    numq = len(list(counts.keys())[0])
+    numq = len(list(counts.keys())[0].replace(' ', ''))
 
     # Get operator subsets
     subsets = []
@@ -181,14 +181,14 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From f33811a80e9827dfd92b315851476e2a2a275db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:49 +0000
Subject: [PATCH 10/62] fix: marginal_counts ignored pad_zeros when keeping all
 bits

---
 qiskit/ignis/verification/tomography/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index b5e2c40..d468a06 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -59,6 +59,8 @@ def marginal_counts(counts: Dict[str, int],
     # whitespace from count keys
     if (meas_qubits is True) or (num_qubits == len(meas_qubits)):
         ret = {}
+        if pad_zeros is True:
+            ret = dict.fromkeys(count_keys(num_qubits), 0)
         for key, val in counts.items():
             key = key.replace(' ', '')
             ret[key] = val
-- 
2.43.0


From b3460817ae28ef602334adaca9cc3b0ce7938108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:37 +0000
Subject: [PATCH 11/62] fix: state tomography of circuits with classical
 registers kept one qubit

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..75495a8 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -280,7 +280,9 @@ class TomographyFitter:
             else:
                 tup = circ
             if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+                # Process tomography labels are (prep_label, meas_label) pairs
+                meas_label = tup[1] if isinstance(tup[0], tuple) else tup
+                counts = marginal_counts(counts, range(len(meas_label)))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 0042df3f7c26883a098f4f51a7a9ad3ce9ff53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:37 +0000
Subject: [PATCH 12/62] fix: AttributeError for a missing result of a named
 tomography circuit

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index 75495a8..7c14f23 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -272,7 +272,8 @@ class TomographyFitter:
                 except QiskitError:
                     pass
             if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
+                raise QiskitError("Result for {} not found".format(
+                    getattr(circ, 'name', circ)))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
-- 
2.43.0


From d9daee4155438258555df4c3076bcc1c9fe0f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:45 +0000
Subject: [PATCH 13/62] fix: gauge optimisation passed a matrix to the vector
 optimiser

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..89ec7e1 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.ravel())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From bd8c5eef2740ce39350f309b01726152710f6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:14 +0000
Subject: [PATCH 14/62] fix: spam_matrix multiplied the gate matrices in
 reverse order

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..2cc4526 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -221,7 +221,7 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From 0da9fb37cebdb7829105287a5e203dafea09a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:40 +0000
Subject: [PATCH 15/62] fix: RBgroup did not know the names NonClifford and
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 7b333a5..4566634 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -37,7 +37,7 @@ class RBgroup():
                                                   'clifford'):
             self._rb_group = Clifford
         elif group_gates in ('1', 'Non-Clifford',
-                             'NonClifford'
+                             'NonClifford',
                              'CNOTDihedral',
                              'CNOT-Dihedral'):
             self._rb_group = CNOTDihedral
-- 
2.43.0


From 9926a57c10d272481eb56723309377c374ad477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:40 +0000
Subject: [PATCH 16/62] fix: rand_seed=0 repeated the same random element,
 generators were rejected

---
 qiskit/ignis/verification/randomized_benchmarking/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..39f4d3c 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -441,7 +441,7 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
+                    if isinstance(rand_seed, (int, np.integer)):
                         rand_seed += (seed + 1)
                     new_elmnt = rb_group.random(rb_q_num, rand_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
-- 
2.43.0


From 0207d34759c5c70ae739959ef25a6e84dd274b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:27 +0000
Subject: [PATCH 17/62] fix: CNOTDihedral truncated the angle of u1 gates
 instead of rounding or rejecting it

u1(11*pi/4) was read as u1(10*pi/4) because of floating point truncation, and
angles which are not multiples of pi/4 were silently replaced.
---
 .../ignis/verification/randomized_benchmarking/dihedral.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..b16339a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -901,7 +901,10 @@ def append_circuit(elem, circuit, qargs=None):
         elif (instr.name == 'u1' or gate.name == 'u1'):
             if (len(new_qubits) != 1 or len(instr.params) != 1):
                 raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
+            tpow = 4 * float(instr.params[0]) / np.pi
+            if not np.isclose(tpow, round(tpow)):
+                raise QiskitError("The angle of u1 is not a multiple of pi/4.")
+            elem.phase(round(tpow), new_qubits[0])
 
         elif (instr.name == 'cx' or gate.name == 'cx'):
             if len(new_qubits) != 2:
-- 
2.43.0


From 03f77a0ae76ca3ca266548f6f19a57c0b6378bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:56 +0000
Subject: [PATCH 18/62] fix: CNOTDihedral rejected single u1, cz and id gates

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index b16339a..3be041e 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -872,6 +872,12 @@ def append_circuit(elem, circuit, qargs=None):
         elem.cnot(qargs[0], qargs[1])
         return elem
 
+    # A single u1, cz or id gate is applied as it is, and not by its definition
+    if gate.name in ('u1', 'cz', 'id'):
+        single = QuantumCircuit(gate.num_qubits)
+        single.append(gate, range(gate.num_qubits))
+        gate = single.to_instruction()
+
     if gate.definition is None:
         raise QiskitError('Cannot apply Instruction: {}'.format(gate.name))
     if not isinstance(gate.definition, QuantumCircuit):
-- 
2.43.0


From 762025e3bd873442081ef12aac9dc688a189339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:35 +0000
Subject: [PATCH 19/62] fix: initializing a CNOTDihedral from a CNOTDihedral
 raised an AttributeError

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 3be041e..f5d6760 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -358,6 +358,7 @@ class CNOTDihedral(BaseOperator):
         # Initialize from another CNOTDihedral by sharing the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
+            self._num_qubits = data.num_qubits
             self.linear = data.linear
             self.shift = data.shift
             self.poly = data.poly
-- 
2.43.0


From 911fbe15a1a7c2a78b8ee4f3098881c283904a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:35 +0000
Subject: [PATCH 20/62] fix: CNOTDihedral.__rmul__ used the shift of the wrong
 factor

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index f5d6760..fe5e02a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -456,7 +456,7 @@ class CNOTDihedral(BaseOperator):
             support = np.arange(self.num_qubits)[np.nonzero(self.linear[i])]
             poly = SpecialPolynomial(self.num_qubits)
             poly.set_pj(support)
-            if other.shift[i] == 1:
+            if self.shift[i] == 1:
                 poly = -1 * poly
                 poly.weight_0 = (poly.weight_0 + 1) % 8
             new_vars.append(poly)
-- 
2.43.0


From 6fd7a85f03e3fee0a42e49d99ac5f725cef0ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:35 +0000
Subject: [PATCH 21/62] fix: products of CNOT-dihedral elements on 9 or more
 qubits failed

The indices of a product of monomials were not sorted.
---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index fe5e02a..ff2bf29 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -97,7 +97,7 @@ class SpecialPolynomial():
             terms3 = list(combinations(range(self.n_vars), r=3))
             for term in terms0 + terms1 + terms2 + terms3:
                 value = self.get_term(term)
-                new_term = list(set(term).union(set(indices)))
+                new_term = sorted(set(term).union(set(indices)))
                 result.set_term(new_term, (result.get_term(new_term) + value) % 8)
         return result
 
-- 
2.43.0


From 5b89a09e839238d1a71bafb79c49c1a36060d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 22/62] fix: SpecialPolynomial.evaluate failed on vectors of
 integers

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index ff2bf29..387054d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -165,7 +165,7 @@ class SpecialPolynomial():
             if False in [i.n_vars == self.n_vars for i in xval]:
                 raise QiskitError("Evaluate on incompatible polynomials.")
         else:
-            xval = xval % 2
+            xval = [x % 2 for x in xval]
         # Examine each term of this polynomial
         terms0 = [[]]
         terms1 = list(combinations(range(self.n_vars), r=1))
@@ -184,7 +184,7 @@ class SpecialPolynomial():
             value = self.get_term(term)
             if value != 0:
                 newterm = reduce(mul, [xval[j] for j in term], start)
-                result = result + value * newterm
+                result = result + int(value) * newterm
         if isinstance(result, int):
             result = result % 8
         return result
-- 
2.43.0


From 0dc546e0fd26b2aa370c2aec38e4f280067e4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 23/62] fix: polynomials set by SpecialPolynomial.set_pj never
 compared equal to others

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 387054d..d857af0 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -201,9 +201,9 @@ class SpecialPolynomial():
         subsets_2 = itertools.combinations(indices, 2)
         subsets_3 = itertools.combinations(indices, 3)
         self.weight_0 = 0
-        self.weight_1 = np.zeros(self.n_vars)
-        self.weight_2 = np.zeros(self.nc2)
-        self.weight_3 = np.zeros(self.nc3)
+        self.weight_1 = np.zeros(self.n_vars, dtype=np.int8)
+        self.weight_2 = np.zeros(self.nc2, dtype=np.int8)
+        self.weight_3 = np.zeros(self.nc3, dtype=np.int8)
         for j in indices:
             self.set_term([j], 1)
         for j in subsets_2:
-- 
2.43.0


From 903890175169824e797211ee054a89e0608f94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:04 +0000
Subject: [PATCH 24/62] fix: PurityRBFitter.cliff_lengths recursed without end

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..e2a348a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From 39700b01a176866d640ab35aa819006a57791390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 25/62] fix: results given to the constructors of RB fitters
 were counted twice

Adding more data later gave the first results twice their weight.
---
 .../verification/randomized_benchmarking/fitters.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index e2a348a..00946ff 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -520,9 +520,9 @@ class InterleavedRBFitter(RBFitterBase):
         self._fit_interleaved = []
 
         self._rbfit_original = RBFitter(
-            original_result, cliff_lengths, rb_pattern)
+            None, cliff_lengths, rb_pattern)
         self._rbfit_interleaved = RBFitter(
-            interleaved_result, cliff_lengths, rb_pattern)
+            None, cliff_lengths, rb_pattern)
 
         self.rbfit_std.add_data(original_result)
         self.rbfit_int.add_data(interleaved_result)
@@ -808,7 +808,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
+        self._rbfit_purity = RBFitter(None, cliff_lengths,
                                       rb_pattern)
         self.add_data(purity_result)
 
@@ -1180,9 +1180,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._fit_cnotdihedral = []
 
         self._rbfit_Z = RBFitter(
-            cnotdihedral_Z_result, elmnts_lengths, rb_pattern)
+            None, elmnts_lengths, rb_pattern)
         self._rbfit_X = RBFitter(
-            cnotdihedral_X_result, elmnts_lengths, rb_pattern)
+            None, elmnts_lengths, rb_pattern)
 
         self.rbfit_Z.add_data(cnotdihedral_Z_result)
         self.rbfit_X.add_data(cnotdihedral_X_result)
-- 
2.43.0


From b60ebaba03d43d6a96c0448ed6f85d39c60fcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 26/62] fix: interleaved and CNOT-dihedral RB fitters failed
 with the default rb_pattern

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 00946ff..566a869 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -1175,6 +1178,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
         """
 
         # Initialize a new CNOTDihedralRBFitter.
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
         self._fit_cnotdihedral = []
-- 
2.43.0


From 72b1ef426b524972280e89f40972f0545630b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 27/62] fix: RB fits failed when the guess from the first two
 points was out of bounds

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 566a869..1af2b62 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -422,12 +422,12 @@ class RBFitter(RBFitterBase):
             dy = ((y1 - fit_guess[2]) /
                   (y0 - fit_guess[2]))
             alpha_guess = dy**(1/dcliff)
-            if alpha_guess < 1.0:
+            if 0.0 < alpha_guess < 1.0:
                 fit_guess[1] = alpha_guess
 
             if y0 > fit_guess[2]:
-                fit_guess[0] = ((y0 - fit_guess[2]) /
-                                fit_guess[1]**self._cliff_lengths[patt_ind][0])
+                fit_guess[0] = min(1.0, (y0 - fit_guess[2]) /
+                                   fit_guess[1]**self._cliff_lengths[patt_ind][0])
 
             self.fit_data_pattern(patt_ind, tuple(fit_guess))
 
-- 
2.43.0


From 7d8991646b247a05557f3eb6768d899a73d855ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:57 +0000
Subject: [PATCH 28/62] fix: calculate_2q_epg and calculate_2q_epc raised
 KeyError for qubits without gate counts

---
 .../verification/randomized_benchmarking/rb_utils.py   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 6c5f405..f3e1515 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -454,12 +454,13 @@ def calculate_2q_epg(gate_per_cliff: Dict[int, Dict[str, float]],
 
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
 
     # estimate single qubit gate error contribution
     alpha_1q = [1.0, 1.0]
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
@@ -615,6 +616,9 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     """
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
 
     n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
     if n_gate_2q == 0:
@@ -625,8 +629,6 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     alpha_1q = [1.0, 1.0]
     alpha_2q = (1 - 4 / 3 * epg_2q) ** n_gate_2q
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
-- 
2.43.0


From 8823892973294327d74a2e97c39f4e516ffa64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 29/62] fix: quantum volume circuits ignored qubit lists whose
 largest qubit equals the depth

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..636cf6e 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -89,11 +89,8 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
-                qc = QuantumCircuit(int(n_q_max + 1))
-                qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            else:
-                qc = qv_circ
+            qc = QuantumCircuit(int(n_q_max + 1))
+            qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             qc.measure_active()
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
-- 
2.43.0


From c6229c23b0398471f52cad75cac57db0856046d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 30/62] fix: quantum volume circuits measured unsorted qubit
 lists in another order than the ideal circuit

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 636cf6e..6180334 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -22,6 +22,7 @@ import warnings
 
 import numpy as np
 
+from qiskit.circuit import ClassicalRegister
 from qiskit.circuit.library import QuantumVolume
 from qiskit.circuit.quantumcircuit import QuantumCircuit
 
@@ -91,7 +92,11 @@ def qv_circuits(qubit_lists, ntrials=1,
             # via qubit lists
             qc = QuantumCircuit(int(n_q_max + 1))
             qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            qc.measure_active()
+            # measure in the order of the list, as in the ideal circuit
+            meas = ClassicalRegister(depth, 'measure')
+            qc.add_register(meas)
+            qc.barrier()
+            qc.measure(qubit_lists[depthidx], meas)
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0


From 8c741bec4d5017da85b70bfb54c7872d2ee7d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 31/62] fix: qv_circuits ignored the random seed 0

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 6180334..8c8e2e1 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -73,7 +73,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -84,7 +84,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From b2d918eefe9d161ee179a512e02299ec6baacb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:52 +0000
Subject: [PATCH 32/62] fix: decoding with a weighted syndrome graph failed
 when an error was never observed

---
 qiskit/ignis/verification/topological_codes/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..3fd7c05 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -195,7 +195,8 @@ class GraphDecoder():
             for elements in [('00', '11'), ('11', '00'),
                              ('01', '10'), ('10', '01')]:
                 if count[elements[1]][edge] > 0:
-                    ratio = count[elements[0]][edge]/count[elements[1]][edge]
+                    # an event that was not seen is less likely than one seen once
+                    ratio = max(count[elements[0]][edge], 1)/count[elements[1]][edge]
                     ratios.append(ratio)
             edge_data['distance'] = -np.log(min(ratios))
 
-- 
2.43.0


From 80cf7959d845e0859191604f140fd2f8b20c9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:24 +0000
Subject: [PATCH 33/62] fix: one-time pads were removed from the wrong bits
 when qubits and clbits differ

---
 qiskit/ignis/verification/accreditation/qotp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..b0f9e2f 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,11 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, in the order of the measured classical bits
+    qotp_postp = np.zeros(len(cregs), dtype=int)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(qotp_postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From 78a30b255aff37c844e8b7f6fa59dad2c3fa8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:24 +0000
Subject: [PATCH 34/62] fix: AccreditationFitter did not raise its errors on
 inconsistent data

---
 .../verification/accreditation/fitters.py     | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..934408b 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -56,20 +56,19 @@ class AccreditationFitter:
             results (Result): results of the quantum job
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
-        """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
 
+        Raises:
+            QiskitError: If the data are not single shot or the number of traps
+                is less than 3 or not that of the earlier runs
+        """
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        num_traps = len(postp_list)-1
+        if self.num_runs > 0 and num_traps != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the "
+                              "same number of traps")
+
+        if num_traps < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -82,8 +81,12 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+
+        self.num_runs = self.num_runs + 1
+        self.num_traps = num_traps
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
@@ -102,10 +105,13 @@ class AccreditationFitter:
 
         Args:
             theta (float): number between 0 and 1
+
+        Raises:
+            QiskitError: If no run was accepted
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires "
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From bf71d75fb11f2660d62dc335701b65c244ab52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:24 +0000
Subject: [PATCH 35/62] fix: all AccreditationFitter objects shared one list of
 outputs

---
 .../verification/accreditation/fitters.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 934408b..d4c2208 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -38,15 +38,16 @@ class AccreditationFitter:
     https://iopscience.iop.org/article/10.1088/1367-2630/ab4fd6
     """
 
-    bound = 1
-    confidence = 1
-    N_acc = 0
-    num_runs = 0
-    flag = 'accepted'
-    outputs = []
-    num_runs = 0
-    num_traps = 0
-    g_num = 1
+    def __init__(self):
+        """Start without data"""
+        self.bound = 1
+        self.confidence = 1
+        self.N_acc = 0
+        self.num_runs = 0
+        self.flag = 'accepted'
+        self.outputs = []
+        self.num_traps = 0
+        self.g_num = 1
 
     def single_protocol_run(self, results, postp_list, v_zero):
         """
-- 
2.43.0


From 30569a1da6d172e036a00da48fa6cd21dadb5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:24 +0000
Subject: [PATCH 36/62] fix: AccreditationFitter kept the bound of earlier data
 when too few runs were accepted

---
 qiskit/ignis/verification/accreditation/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index d4c2208..7cea4d4 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -113,6 +113,8 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires "
                               "at least one accepted run")
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 89f7f0c83d5a95a1b77466f73b29bb43b7cdcd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:28 +0000
Subject: [PATCH 37/62] fix: confidence of the accreditation bound exceeds what
 Hoeffding's inequality gives

The acceptance probability is estimated from num_runs runs to within theta, with
confidence 1 - 2 exp(-2 num_runs theta^2).  The exponent had theta and num_runs
exchanged (-2 theta num_runs^2), so that 10 runs with theta = 0.05 reported a
confidence of 0.9999 for an estimate which is wrong most of the time.
---
 qiskit/ignis/verification/accreditation/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 7cea4d4..8d12802 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -119,6 +119,6 @@ class AccreditationFitter:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
             self.bound = self.bound+1-self.g_num
-            self.confidence = 1-2*np.exp(-2*theta*self.num_runs*self.num_runs)
+            self.confidence = 1-2*np.exp(-2*theta*theta*self.num_runs)
         if self.bound > 1:
             self.bound = 1
-- 
2.43.0


From 7ac87783d18e4cd8f0e4aae37804bb141e37c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:58 +0000
Subject: [PATCH 38/62] fix: zz_circuits did not accept the documented list of
 gate numbers

A list of integers times a float gate time raised a TypeError, and an integer
gate time repeated the list instead of scaling it.
---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From c5443dc78d4891231df24ad400be715323a3011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:58 +0000
Subject: [PATCH 39/62] fix: last X90 of anglecal_1Q_circuits had half of the
 artificial angle error

The other X90 gates are rotated by 2*angleerr, and the model of AngleCalFitter
takes the same error on all of them, so that the fit of noiseless circuits with
angleerr=0.1 returned 0.0967.
---
 qiskit/ignis/characterization/gates/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..9bdfb9c 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -112,7 +112,7 @@ def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
                     circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Yp
 
             if angleerr != 0:
-                circ.append(U1Gate(-angleerr), [qr[qubit]])
+                circ.append(U1Gate(-2*angleerr), [qr[qubit]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
         for qind, qubit in enumerate(qubits):
             circ.measure(qr[qubit], cr[qind])
-- 
2.43.0


From e3bfdcadfc82528771e6eb539ee6aceb18197772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:47 +0000
Subject: [PATCH 40/62] fix: rabi and drag schedules measured into the slots of
 other qubits

RabiFitter and DragFitter read the data of the i-th listed qubit from memory
slot i, as the characterisation circuits do, but the schedules measured qubit q
into slot q, so that qubits=[1, 0] fitted each qubit with the data of the other
and qubits=[1] with those of no qubit.
---
 .../characterization/calibrations/pulse_schedules.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 6c06129..83b315b 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -79,7 +79,9 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
         sched = pulse.Schedule(name='rabisched_%d_0' % index)
         for qubit in qubits:
             sched += pulse.Play(rabi_pulse, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots={q: i for i, q in enumerate(qubits)}
+                         ).shift(pulse_width)
         rabi_scheds.append(sched)
 
     return rabi_scheds, xdata
@@ -148,7 +150,9 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
                                           name='drag_pulse_%d_%d' % (index, qubit))
             sched += pulse.Play(drag_pulse_p, drives[qubit])
             sched += pulse.Play(drag_pulse_m, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(2*pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots={q: i for i, q in enumerate(qubits)}
+                         ).shift(2*pulse_width)
         drag_scheds.append(sched)
 
     return drag_scheds, xdata
-- 
2.43.0


From c9689c2605c43c9c402b0f35615cddc9c5acd298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:47 +0000
Subject: [PATCH 41/62] fix: IQFitter failed on single-shot IQ data

The mean and standard deviation were taken over all qubits at once, giving a
scalar which was then indexed by the qubit, and the data of several results were
added shot by shot.
---
 qiskit/ignis/characterization/fitters.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..0bc3076 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -448,11 +448,9 @@ class IQFitter(BaseFitter):
                 else:
 
                     # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    iq_list[sname] = np.concatenate(
+                        (iq_list.get(sname, np.zeros([0, mem_slots])),
+                         single_result.get_memory(sname)))
 
         for sname in iq_list:
 
@@ -460,8 +458,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.sum(iq_list[sname], axis=0)/shots_list[sname]
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From c6afcadaca9bfb712aecd383382675a9e80be341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:47 +0000
Subject: [PATCH 42/62] fix: IQFitter projected IQ data on the wrong line

The angle of the line was computed from the absolute extents in I and Q, so that
data along a descending line (Q decreasing when I increases) were projected
towards zero signal; for equal extents the signal vanished.
---
 qiskit/ignis/characterization/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 0bc3076..98770fd 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -499,6 +499,9 @@ class IQFitter(BaseFitter):
                 imag_ext = np.mean(np.abs(np.imag(mean_list)))
                 crot = real_ext/(real_ext**2+imag_ext**2)**0.5
                 srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
+                # the line descends if I and Q change in opposite directions
+                if np.sum(np.real(mean_list)*np.imag(mean_list)) < 0:
+                    srot = -srot
                 mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
                 self._ydata[serieslbl][-1]['mean'] = mean_list
 
-- 
2.43.0


From f4d55cc03acf529be54fe38b07619bec43de536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:59 +0000
Subject: [PATCH 43/62] fix: discriminators trained with Schedule objects need
 no expected states

The type of the list was tested instead of that of the schedule, so that the
expected states could not be read from the names of the schedules.
---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..a4473cd 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From 361e313d8f268b9740dabc491faf71a90482be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:59 +0000
Subject: [PATCH 44/62] fix: data added to a discriminator replaced the earlier
 data

After add_data the discriminator was trained with the schedules of the added
result only, without those it was created with.
---
 qiskit/ignis/measurement/discriminator/discriminators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index a4473cd..a260adf 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -115,8 +115,8 @@ class BaseDiscriminationFitter(ABC):
         self._backend_result_list.append(result)
         self._add_expected_states(expected_states, schedules)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
+        self._ydata = list(self._ydata) + list(self.get_ydata(result, 0, schedules))
 
         if refit:
             self.fit()
-- 
2.43.0


From b9f411a50859e4af3b8e9cdc2d6fd4dbb5fb1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:59 +0000
Subject: [PATCH 45/62] fix: discriminator training data of repeated
 calibrations

With several results holding the same calibration schedule, or averaged data of
several qubits, the expected states were not paired with the data: xdata held the
data of the last result, ydata the states of all of them.
---
 .../discriminator/iq_discriminators.py        | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..1a150f6 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -79,9 +79,9 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
-                     (through get_memory(schedule)) is used.
+                     If result is a list of Result, then the data of all Results
+                     in the list that return the data of schedule
+                     (through get_memory(schedule)) are used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
                                   (``1``) non-calibration data
@@ -98,22 +98,23 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
-        for schedule in schedules:
-            iq_data = None
+        for schedule in self._without_repetition(schedules):
+            found = False
             if isinstance(results, list):
                 for result in results:
                     try:
                         iq_data = result.get_memory(schedule)
                     except QiskitError:
-                        pass
+                        continue
+                    found = True
+                    xdata.extend(self.format_iq_data(iq_data))
             else:
-                iq_data = results.get_memory(schedule)
+                found = True
+                xdata.extend(self.format_iq_data(results.get_memory(schedule)))
 
-            if iq_data is None:
+            if not found:
                 raise PulseError('Could not find IQ data for %s' % schedule)
 
-            xdata.extend(self.format_iq_data(iq_data))
-
         return self._scale_data(xdata)
 
     def get_ydata(self, results: Union[Result, List[Result]],
@@ -139,7 +140,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
-        for schedule in schedules:
+        for schedule in self._without_repetition(schedules):
             if isinstance(schedule, Schedule):
                 shed_name = schedule.name
             else:
@@ -151,13 +152,22 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
             for result in results:
                 try:
                     iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
+                    n_shots = len(self.format_iq_data(iq_data))
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
                 except QiskitError:
                     pass
 
         return ydata
 
+    @staticmethod
+    def _without_repetition(schedules):
+        """The schedules, each one once and in the given order."""
+        names = {}
+        for schedule in schedules:
+            name = schedule.name if isinstance(schedule, Schedule) else schedule
+            names.setdefault(name, schedule)
+        return list(names.values())
+
     def format_iq_data(self, iq_data: np.ndarray) -> List[List[float]]:
         """
         Takes IQ data obtained from get_memory(), applies the qubit mask
-- 
2.43.0


From 0e854052b908ffcbc32159cb5e027cf89b6e68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:59 +0000
Subject: [PATCH 46/62] fix: DiscriminationFilter mixed up the data of
 experiments

Experiments of the same name all got the outcomes of the first one, and averaged
data were attributed to the wrong experiments, since the outcomes were divided
by the numbers of shots.  The documented list of results was not accepted.
---
 .../measurement/discriminator/filters.py      | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..a177a2e 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -68,29 +68,26 @@ class DiscriminationFilter:
         Returns:
             A list of qiskit.Result or qiskit.Result.
         """
+        if isinstance(raw_data, list):
+            return [self.apply(data) for data in raw_data]
+
         new_results = deepcopy(raw_data)
 
         to_be_discriminated = []
 
         # Extract all the meas level 1 data from the Result.
-        shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
                 to_be_discriminated.append(result)
 
         new_results.results = to_be_discriminated
 
-        x_data = self.discriminator.get_xdata(new_results, 2)
-        y_data = self.discriminator.discriminate(x_data)
-
-        start = 0
-        for idx, n_shots in enumerate(shots_per_experiment_result):
-            memory = y_data[start:(start+n_shots)]
+        for idx, result in enumerate(new_results.results):
+            # by index, since several experiments may have the same name
+            x_data = self.discriminator.get_xdata(new_results, 2, [idx])
+            memory = self.discriminator.discriminate(x_data)
             counts = self.count(memory)
-            new_results.results[idx].data = ExperimentResultData(counts=counts,
-                                                                 memory=memory)
-            start += n_shots
+            result.data = ExperimentResultData(counts=counts, memory=memory)
 
         for result in new_results.results:
             result.meas_level = 2
-- 
2.43.0


From 2d5d1551ba63e82b4411b745d0ba9b0d8dc3bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 47/62] fix: BConfig.get_tier_dict took exponential time

Every step visited all neighbours again, so that the list of parents grew
exponentially with the depth of the tree: the circuits of backends with 53
qubits, or with an unconnected coupling map, were never finished. Only the
nodes that were added in a step have new children in the next one.
---
 .../ignis/verification/entanglement/parallelize.py  | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 18fe4e9..a267727 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -176,28 +176,21 @@ class BConfig:
 
         parentlist = []
         parentlist.append(parent)
-        ii = 0
-        while True:
+        while parentlist:
             totalchildren = []
             for parent in parentlist:
                 children = self.nodes[parent]
                 if self.indicator:
                     children = self._child_sorter(children, parent)
-                totalchildren += children
                 children = [a for a in children if a not in trashlist]
+                totalchildren += children
                 j = tier_DM[parent]
                 for i, _ in enumerate(children):
                     tier[j] += [[parent, children[i]]]
                     tier_DM[children[i]] = j+1
                     j += 1
                     trashlist.append(children[i])
-                parentlist = totalchildren
-
-            if len(trashlist) == length:
-                break
-            ii += 1
-            if ii > 50:
-                break
+            parentlist = totalchildren
 
         newtier = {}
         for a in tier:
-- 
2.43.0


From b4ac975868ae8e1d7d6113fc80b23c16a86712fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 48/62] fix: BConfig failed for coupling maps without qubit 0

---
 qiskit/ignis/verification/entanglement/parallelize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index a267727..e233613 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -76,7 +76,7 @@ class BConfig:
         based on error, but that is probably not too useful
         """
 
-        best_node = 0
+        best_node = next(iter(self.nodes))
         for i in self.nodes:
             if len(self.nodes[i]) > len(self.nodes[best_node]):
                 best_node = i
-- 
2.43.0


From 5f6a4b8f3016f9a0f69d7604937fb56443f8a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 49/62] fix: parallelized GHZ circuits of one qubit or of too
 many qubits

For n=1 an IndexError was raised, and for more qubits than the coupling map
connects the remaining qubits were silently left out of the GHZ state.
---
 .../verification/entanglement/parallelize.py  | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index e233613..2273d0f 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -31,6 +31,7 @@ than Ignis.
 from typing import Tuple, List, Dict
 from qiskit.circuit import ClassicalRegister, QuantumRegister, Parameter
 from qiskit.circuit import QuantumCircuit
+from qiskit.exceptions import QiskitError
 from qiskit.compiler import transpile
 from qiskit.circuit.library import U1Gate, U2Gate
 
@@ -218,22 +219,21 @@ class BConfig:
 
         Returns:
            A GHZ Circuit and its initial GHZ layout
+
+        Raises:
+           QiskitError: if fewer than n qubits are connected
        """
 
         tierdict = self.get_tier_dict()
         q = QuantumRegister(n, 'q')
         circ = QuantumCircuit(q)
         circ.h(q[0])
-        trashlist = []
-        initial_layout = {}
+        trashlist = [self._get_best_node()]
+        initial_layout = {q[0]: trashlist[0]}
         for a in tierdict:
+            if len(trashlist) == n:
+                break
             for aa in tierdict[a]:
-                if aa[0] not in trashlist:
-                    trashlist.append(aa[0])
-                    trashindex = trashlist.index(aa[0])
-                    initial_layout[q[trashindex]] = aa[0]
-                else:
-                    pass
                 if aa[1] not in trashlist:
                     trashlist.append(aa[1])
                     trashindex = trashlist.index(aa[1])
@@ -247,8 +247,10 @@ class BConfig:
                     break
             if barriered:
                 circ.barrier()
-            if len(trashlist) == n:
-                break
+
+        if len(trashlist) != n:
+            raise QiskitError('The coupling map of the backend connects only '
+                              '{} qubits'.format(len(trashlist)))
 
         if transpiled:
             circ = transpile(circ, backend=self.backend,
-- 
2.43.0


From af7dece8ad54e5095d2a2814787e0636788e1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:39 +0000
Subject: [PATCH 50/62] fix: raw MQC fidelity used the error-mitigated
 populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From de3f9eabd4ba92d8ce010c0398b131b635b137c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:55 +0000
Subject: [PATCH 51/62] fix: the log_file path of the logging configuration was
 changed

The path was converted to lower case and cut at the first colon, so that the
log was written to another file (or nowhere) than the configured one.
---
 qiskit/ignis/logging/ignis_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..620433d 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -178,10 +178,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -196,7 +196,7 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
+            log_config.get('file_logging', '').lower() == "true"
         IgnisLogging._log_file = log_config.get('log_file') if \
             log_config.get('log_file') is not None else "ignis.log"
         max_size = log_config.get('max_size')
-- 
2.43.0


From 31ccd0ea20c4d57e416d3a8408afcfb7d646e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:55 +0000
Subject: [PATCH 52/62] fix: log files with special characters in their path
 were not found

The path was used as a regular expression and glob pattern, so that the log
reader found no files in directories like 'run[1]' or 'c++'.
---
 qiskit/ignis/logging/ignis_logging.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 620433d..818529e 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -316,13 +316,11 @@ class IgnisLogReader:
         """
 
         file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
+        search_path = glob.escape(os.path.abspath(file_name)) + "*"
         files = sorted(glob.glob(search_path), key=os.path.getmtime)
 
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
+        m = re.compile(re.escape(os.path.abspath(file_name)) + r"(\.\d+)?$")
         for f in files:
             if m.match(f):
                 result.append(f)
-- 
2.43.0


From f872243361fb39c7c376343243c445b20a1e7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:55 +0000
Subject: [PATCH 53/62] fix: logged values with spaces were torn apart by the
 log reader

Even the documented example log_to_file(qubits=[1,2,4]) could not be read back:
the reader returned the pieces of the list as separate values, and only the
first one if the key was given. Values of several lines, e.g. arrays, became
several rows, which could not be filtered by time.
---
 qiskit/ignis/logging/ignis_logging.py | 36 ++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 818529e..4fce210 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -367,8 +367,8 @@ class IgnisLogReader:
 
         for file in files:
             with open(file, "r") as f:
-                for line in f:
-                    terms = line.split()
+                for line in self._split_rows(f.read()):
+                    terms = line.split(None, 3)
                     date_time = terms[0:2]
 
                     dt_filterd = self._filter_by_datetime(date_time,
@@ -379,7 +379,7 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    key_values = self._split_pairs(*terms[3:])
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
@@ -389,6 +389,36 @@ class IgnisLogReader:
 
         return retrieved_date
 
+    @staticmethod
+    def _split_rows(text):
+        """
+        Split the text of a log file to rows. A row starts with date and time,
+        it has several lines if a logged value has
+
+        Params:
+            text (str): the text of a log file
+
+        Returns:
+            list: the rows
+        """
+        rows = re.split(r"\n(?=\d+/\d+/\d+ \d+:\d+:\d+ )", text)
+        return [row for row in rows if row.strip()]
+
+    @staticmethod
+    def _split_pairs(pairs=''):
+        """
+        Split a row to its key value pairs. Values may contain spaces
+
+        Params:
+            pairs (str): the key value pairs, separated by spaces
+
+        Returns:
+            list: list of key value pairs
+        """
+        key = r"'[^'\s]*':'"
+        return re.findall(key + r".*?'(?=\s+" + key + r"|\s*\Z)", pairs,
+                          flags=re.DOTALL)
+
     def _filter_keys(self, key_values, keys):
         """
         Retrieve key value pairs matching the given keys
-- 
2.43.0


From 2ebb5a6b04d015016fafdb7c753cfd9ee169a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:55 +0000
Subject: [PATCH 54/62] fix: a logger requested twice wrote every message twice

Each call of get_logger added another stream handler, and the data logged to
the file were printed to the console by the additional ones.
---
 qiskit/ignis/logging/ignis_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 4fce210..8849b3e 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -60,6 +60,8 @@ class IgnisLogger(logging.getLoggerClass()):
             sh: StreamHandler object
             conf_file_exists: Whether or not a file config exists
         """
+        if self._stream_handler is not None:
+            self.removeHandler(self._stream_handler)
         self._stream_handler = sh
         self.addHandler(sh)
         self._conf_file_exists = conf_file_exists
-- 
2.43.0


From 0671145baae5fa3f010f713305662cca92b76002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:59 +0000
Subject: [PATCH 55/62] fix: products of CNOT-dihedral elements could not be
 validated, copied or tensored

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index d857af0..f764c94 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -423,8 +423,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = np.mod(self._z2matvecmul(self.linear, other.shift) + self.shift, 2)
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
@@ -445,10 +444,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(other.linear,
-                                                       self.shift),
-                                     other.shift)]
+        result.shift = np.mod(self._z2matvecmul(other.linear, self.shift) + other.shift, 2)
         result.linear = self._z2matmul(other.linear, self.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From c49c76c4898b039ee6936144fe1782f3d0413a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:59 +0000
Subject: [PATCH 56/62] fix: CNOTDihedral could not be initialized from a
 ScalarOp

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index f764c94..eaeaf6f 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -365,7 +365,7 @@ class CNOTDihedral(BaseOperator):
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-            if not data.is_unitary() or set(data._input_dims) != {2} or \
+            if not data.is_unitary() or set(data.input_dims()) != {2} or \
                     data.num_qubits is None:
                 raise QiskitError("Can only initialize from N-qubit identity ScalarOp.")
             self._num_qubits = data.num_qubits
-- 
2.43.0


From 4329d94f8b59132986e324941f191de77a83d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:33 +0000
Subject: [PATCH 57/62] fix: readout correction with method None raised instead
 of using least squares

---
 qiskit/ignis/mitigation/measurement/filters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index e8a9f69..92f4c95 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -105,6 +105,9 @@ class MeasurementFilter():
 
         """
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
@@ -305,6 +308,9 @@ class TensoredFilter():
             QiskitError: if raw_data is not in a one of the defined forms.
         """
 
+        if method is None:
+            method = 'least_squares'
+
         all_states = count_keys(self.nqubits)
         num_of_states = 2**self.nqubits
 
-- 
2.43.0


From 1711bb008738e7fa31cd7cc68b5814c7512bc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:14 +0000
Subject: [PATCH 58/62] fix: calibration matrices count every experiment, also
 when names repeat

Two calibration experiments of the same name in one Result were both read
with the counts of the first one.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index e845800..6035b3f 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -403,7 +403,7 @@ class TensoredMeasFitter():
 
         # go through for each calibration experiment
         for result in self._result_list:
-            for experiment in result.results:
+            for exp_index, experiment in enumerate(result.results):
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
@@ -417,7 +417,7 @@ class TensoredMeasFitter():
                 state = circ_search.group(0)
 
                 # get the counts from the result
-                state_cnts = result.get_counts(circ_name)
+                state_cnts = result.get_counts(exp_index)
                 for measured_state, counts in state_cnts.items():
                     end_index = self.nqubits
                     for cal_ind, cal_mat in enumerate(self._cal_matrices):
-- 
2.43.0


From 1a7698fdc3e776f4c28e49b518de4a29420b340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:11 +0000
Subject: [PATCH 59/62] fix: a CTMP mitigator fitted with given generators
 forgot qubits without generators

---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 89e2b19..4d9ae4e 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -56,7 +56,7 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     # Compute rates for generators
     rates = [_get_ctmp_error_rate(gen, gen_mat_dict, num_qubits) for gen in generators]
-    return CTMPExpvalMeasMitigator(generators, rates)
+    return CTMPExpvalMeasMitigator(generators, rates, num_qubits)
 
 
 # Utility functions used for fitting (Should be moved to Fitter class)
-- 
2.43.0


From 78d614ab962fd6678249cab7252e97c797e1a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:11 +0000
Subject: [PATCH 60/62] fix: CTMP mitigators of a single qubit were fitted
 without generators

---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 4d9ae4e..9412bf7 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -50,7 +50,8 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     gen_mat_dict = {}
     for gen in generators + _supplementary_generators(generators):
-        if len(gen[2]) > 1:
+        # A single qubit is calibrated without the pairs it is part of
+        if len(gen[2]) > 1 or num_qubits == 1:
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
@@ -116,9 +117,9 @@ def _get_ctmp_error_rate(gen: Generator,
     """
     # pylint: disable=invalid-name
     b, a, c = gen
-    if len(b) == 1:
+    if len(b) == 1 and num_qubits > 1:
         rate = _ctmp_err_rate_1_q(a, b, c[0], g_mat_dict, num_qubits)
-    elif len(b) == 2:
+    else:
         rate = _ctmp_err_rate_2_q(gen, g_mat_dict)
     return rate
 
@@ -126,17 +127,16 @@ def _get_ctmp_error_rate(gen: Generator,
 def _local_g_matrix(gen: Generator,
                     cal_data: Dict[int, Dict[int, int]],
                     num_qubits: int) -> np.array:
-    """Computes the G(j,k) matrix in the basis [00, 01, 10, 11]."""
+    """Computes the G(j,k) matrix in the basis [00, 01, 10, 11], or G(j) in the basis [0, 1]."""
     # pylint: disable=invalid-name
     _, _, c = gen
-    j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    a_mat = assignment_matrix(cal_data, num_qubits, list(c))
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From 7f82ce5859c237c3f825b208ca34b2edc673d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:11 +0000
Subject: [PATCH 61/62] fix: circuit labels with special characters were read
 as regular expressions

---
 qiskit/ignis/mitigation/measurement/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index 6035b3f..f384efb 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -407,7 +407,7 @@ class TensoredMeasFitter():
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
-                circ_search = re.search('(?<=' + self._circlabel + 'cal_)\\w+',
+                circ_search = re.search('(?<=' + re.escape(self._circlabel) + 'cal_)\\w+',
                                         circ_name)
 
                 # this experiment is not one of the calcs so skip
-- 
2.43.0


From 659fbb5eecb863d600f653f207237921c444e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:21 +0000
Subject: [PATCH 62/62] fix: a RandomState as rand_seed was refused by the
 Clifford group

---
 .../ignis/verification/randomized_benchmarking/rb_groups.py   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 4566634..1cb4aea 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -16,6 +16,7 @@
 in randomized benchmarking"""
 
 import numpy as np
+from numpy.random import RandomState
 from qiskit.exceptions import QiskitError
 from qiskit.quantum_info.operators.symplectic import Clifford
 from qiskit.quantum_info.random import random_clifford
@@ -72,6 +73,9 @@ class RBgroup():
         if self._group_gates_type:
             return random_cnotdihedral(num_qubits, seed=rand_seed)
         else:
+            if isinstance(rand_seed, RandomState):
+                # random_clifford takes an integer or a Generator
+                rand_seed = rand_seed.randint(2**31)
             return random_clifford(num_qubits, seed=rand_seed)
 
     @staticmethod
-- 
2.43.0

