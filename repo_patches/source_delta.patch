From 2338384928fa426afc128930a96c8b1512f9eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:49 +0000
Subject: [PATCH 01/74] fix: subset_fitter selects label characters counted
 from the right

State labels are written with qubit 0 rightmost, but subset_fitter
picked characters from the left and kept the list order, so the reduced
calibration matrix belonged to other qubits or a reversed order.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..ab1c10d 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # qubit k of the list is the k-th label character from the right
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From 62b9ed8de4b23d58a6617516f07d27b1c97d7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:05 +0000
Subject: [PATCH 02/74] fix: measurement filters accept method=None as
 documented

Both filters document that method=None selects least_squares, but it
was rejected as an unrecognized method.
---
 qiskit/ignis/mitigation/measurement/filters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index e8a9f69..92f4c95 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -105,6 +105,9 @@ class MeasurementFilter():
 
         """
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
@@ -305,6 +308,9 @@ class TensoredFilter():
             QiskitError: if raw_data is not in a one of the defined forms.
         """
 
+        if method is None:
+            method = 'least_squares'
+
         all_states = count_keys(self.nqubits)
         num_of_states = 2**self.nqubits
 
-- 
2.43.0


From 95142ece635ea42da67a67790a1552e4888e14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:50 +0000
Subject: [PATCH 03/74] fix: marginal_counts honours pad_zeros when all qubits
 are kept

The shortcut for the full set of qubits returned before padding, so
zero-count outcomes were missing although pad_zeros=True was given.
---
 qiskit/ignis/verification/tomography/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..3976ace 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -59,6 +59,8 @@ def marginal_counts(counts: Dict[str, int],
     # whitespace from count keys
     if (meas_qubits is True) or (num_qubits == len(meas_qubits)):
         ret = {}
+        if pad_zeros is True:
+            ret = {key: 0 for key in count_keys(num_qubits)}
         for key, val in counts.items():
             key = key.replace(' ', '')
             ret[key] = val
-- 
2.43.0


From 231a05f8d871bb423befbc5e17fc4c8adc049feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:51 +0000
Subject: [PATCH 04/74] fix: combine_counts does not modify its first argument

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 3976ace..d6c9fa0 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -134,7 +134,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From 6a8c0162883849d9c7fb1671f0ce93b5752e74cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:51 +0000
Subject: [PATCH 05/74] fix: expectation_counts labels subsystems by qubit and
 any number of qubits

The identity entry was always stored as '00', and the key of an operator
marked its qubits from the left while counts keys have qubit 0 rightmost
(for XZ the values of IZ and XI were swapped).
---
 qiskit/ignis/verification/tomography/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index d6c9fa0..1d9fd6e 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -174,6 +174,9 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
     # Get total shots for data set
     shots = np.sum(list(counts.values()))
 
+    # Remove any whitespace separating classical registers
+    counts = marginal_counts(counts)
+
     # Compute measured operators subsets in a data set
     numq = len(list(counts.keys())[0])
 
@@ -183,14 +186,15 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            # qubit 0 is the rightmost character of a key
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From d9c961d4ffefa2dff27a621bdfb75ccaa7462563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:18 +0000
Subject: [PATCH 06/74] fix: tensored mitigator builds matrices of the selected
 qubits

The loop over the remaining qubits used each qubit as an index into the
qubits list again, so selections other than [0, ..., n-1] gave the
matrices of other qubits or an IndexError.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From bb2d300ebe629f12ace69795544207be9a30bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:18 +0000
Subject: [PATCH 07/74] fix: tensored mitigator uses qubits 0..n-1 for n-bit
 counts by default

Counts on fewer bits than calibrated qubits were contracted with the
matrices of all qubits, silently giving a wrong expectation value.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 9793868..53e85e1 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -105,7 +105,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is not None:
             ainvs = self._mitigation_mats[list(qubits)]
         else:
-            ainvs = self._mitigation_mats
+            ainvs = self._mitigation_mats[:num_qubits]
 
         # Get operator coeffs
         if diagonal is None:
-- 
2.43.0


From c3d6809115d41ed0fea77f40f447c2daa7c6c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:18 +0000
Subject: [PATCH 08/74] fix: complete and CTMP mitigators apply the diagonal in
 the listed qubit order

The probabilities were permuted to ascending qubit order but a custom
diagonal was not, so for an unsorted list of qubits it was evaluated on
permuted bits.
---
 .../ignis/mitigation/expval/complete_mitigator.py |  6 +++++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py  |  5 ++++-
 qiskit/ignis/mitigation/expval/utils.py           | 15 ++++++++++-----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..dad72b2 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -18,7 +18,8 @@ from typing import Optional, List, Dict, Tuple
 import numpy as np
 
 from qiskit.exceptions import QiskitError
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev,
+                    _sort_vector_qubits)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -102,6 +103,9 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Get operator coeffs
         if diagonal is None:
             diagonal = self._z_diagonal(2 ** num_qubits)
+        else:
+            # Same qubit order as the remapped probabilities
+            diagonal = _sort_vector_qubits(diagonal, qubits)
         # Apply transpose of mitigation matrix
         coeffs = mit_mat.T.dot(diagonal)
 
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..ea0fd06 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,7 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector
+from .utils import counts_probability_vector, _sort_vector_qubits
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -123,6 +123,9 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Ensure diagonal is a numpy vector so we can use fancy indexing
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
+        else:
+            # Same qubit order as the remapped probabilities
+            diagonal = _sort_vector_qubits(diagonal, qubits)
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
 
         # Get arrays from CSC sparse matrix format
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..53844f5 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -137,16 +137,21 @@ def counts_probability_vector(
 
     # Remap qubits
     if qubits is not None:
-        if len(qubits) != num_qubits:
-            raise QiskitError("Num qubits does not match vector length.")
-        axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
-        vec = np.reshape(vec,
-                         num_qubits * [2]).transpose(axes).reshape(vec.shape)
+        vec = _sort_vector_qubits(vec, qubits)
     if return_shots:
         return vec, shots
     return vec
 
 
+def _sort_vector_qubits(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
+    """Permute an N-qubit vector on listed qubits to ascending qubit order."""
+    num_qubits = int(np.log2(len(vec)))
+    if len(qubits) != num_qubits:
+        raise QiskitError("Num qubits does not match vector length.")
+    axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
+    return np.reshape(vec, num_qubits * [2]).transpose(axes).ravel()
+
+
 def calibration_data(result: Result,
                      metadata: List[Dict[str, any]]) -> Tuple[
                          Dict[int, Dict[int, int]], int]:
-- 
2.43.0


From d29f6d6cd2dbb6279dcac392aacee2c6b25c0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 09/74] fix: mitigators pair qubits with clbits as in
 circuit.measure(qubits, clbits)

Counts marginalized to clbits have ascending bit order whatever the order
of the clbits list, but the qubits were taken in listed order, so an
unsorted clbits list mitigated bits with the matrices of other qubits.
---
 .../mitigation/expval/complete_mitigator.py      |  3 ++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py |  4 +++-
 .../mitigation/expval/tensored_mitigator.py      |  4 +++-
 qiskit/ignis/mitigation/expval/utils.py          | 16 ++++++++++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index dad72b2..2df5c0a 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -19,7 +19,7 @@ import numpy as np
 
 from qiskit.exceptions import QiskitError
 from .utils import (counts_probability_vector, _expval_with_stddev,
-                    _sort_vector_qubits)
+                    _marginal_qubits, _sort_vector_qubits)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -89,6 +89,7 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
             ``circuit.measure(qubits, clbits)``.
         """
         # Get probability vector
+        qubits = _marginal_qubits(qubits, clbits)
         probs, shots = counts_probability_vector(
             counts, clbits=clbits, qubits=qubits, return_shots=True)
         num_qubits = int(np.log2(probs.shape[0]))
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index ea0fd06..3f9aeac 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,8 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector, _sort_vector_qubits
+from .utils import (counts_probability_vector, _marginal_qubits,
+                    _sort_vector_qubits)
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -112,6 +113,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
             which physical qubits these bit-values correspond to as
             ``circuit.measure(qubits, clbits)``.
         """
+        qubits = _marginal_qubits(qubits, clbits)
         if qubits is None:
             qubits = list(range(self._num_qubits))
 
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 53e85e1..d98cecc 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -17,7 +17,8 @@ Single-qubit tensor-product measurement error mitigation generator.
 from typing import Optional, List, Dict, Tuple
 import numpy as np
 
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev,
+                    _marginal_qubits)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -98,6 +99,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             ``circuit.measure(qubits, clbits)``.
         """
         # Get expectation value on specified qubits
+        qubits = _marginal_qubits(qubits, clbits)
         probs, shots = counts_probability_vector(
             counts, clbits=clbits, return_shots=True)
         num_qubits = int(np.log2(probs.shape[0]))
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index 53844f5..af13d92 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -143,6 +143,22 @@ def counts_probability_vector(
     return vec
 
 
+def _marginal_qubits(qubits: Optional[List[int]],
+                     clbits: Optional[List[int]]) -> Optional[List[int]]:
+    """Return the qubits in the bit order of counts marginalized to clbits.
+
+    ``qubits[k]`` was measured into ``clbits[k]``, while marginalized counts
+    have their bits in ascending order.
+    """
+    if clbits is None:
+        return qubits
+    if qubits is None:
+        qubits = range(len(clbits))
+    if len(qubits) != len(clbits):
+        raise QiskitError("Num qubits does not match number of clbits.")
+    return [qubits[i] for i in np.argsort(clbits)]
+
+
 def _sort_vector_qubits(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
     """Permute an N-qubit vector on listed qubits to ascending qubit order."""
     num_qubits = int(np.log2(len(vec)))
-- 
2.43.0


From e208b54b6474dd5e1b8b1136ac2b41bf31d8e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 10/74] fix: CTMP mitigator does not use the numpy aliases
 removed in 1.24

np.int and np.float no longer exist, so computing the generator matrix or
an expectation value raised AttributeError.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 3f9aeac..ab34145 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -136,8 +136,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -189,7 +189,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -306,7 +306,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From 954369df09d526d12cce27731f3b257a7e62376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 11/74] fix: CTMP mitigator uses qubits 0..n-1 for n-bit counts
 by default

Counts on fewer bits than calibrated qubits were treated as counts on all
qubits with the missing ones read as 0.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index ab34145..6cb893a 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -115,7 +115,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         """
         qubits = _marginal_qubits(qubits, clbits)
         if qubits is None:
-            qubits = list(range(self._num_qubits))
+            qubits = list(range(len(next(iter(counts)))))
 
         # Convert counts to probs
         probs, shots = counts_probability_vector(
-- 
2.43.0


From 4e5e16ab949cfcda0d58f3eff052ee950a5390cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 12/74] fix: CTMP fit assigns one-qubit rates to the right
 generators

Generators are (b, a, qubits) for the error a -> b, but the one-qubit
rates were read from the entries of the opposite error. The assignment
and mitigation matrices compensated this by flipping all bits of the
generator matrix, which reversed the (correct) two-qubit generators and
any user supplied generator, while expectation_value used the unflipped
matrix with the swapped one-qubit rates.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  6 +++---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..fb3ffef 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -68,11 +68,11 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     # pylint: disable=invalid-name
     rate_list = []
     if a == '0' and b == '1':
-        g1 = ('00', '10')
-        g2 = ('01', '11')
-    elif a == '1' and b == '0':
         g1 = ('10', '00')
         g2 = ('11', '01')
+    elif a == '1' and b == '0':
+        g1 = ('00', '10')
+        g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
     for k in range(num_qubits):
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 6cb893a..3d42fdb 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -211,12 +211,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(-gmat)
+        return la.expm(-gmat.toarray())
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
         r"""Return the measurement assignment matrix for specified qubits.
@@ -231,12 +227,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(gmat)
+        return la.expm(gmat.toarray())
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
         """Return the noise strength :math:`gamma` on the specified qubits"""
-- 
2.43.0


From 325a7af8181e3f67f514d7bc6d1b9d085ebb0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:02 +0000
Subject: [PATCH 13/74] fix: CTMP fit of a single qubit

One-qubit rates are averaged over pairs with the other qubits; for one
qubit there are none, the rates became nan and no error was mitigated.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index fb3ffef..df4ee70 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -50,7 +50,7 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     gen_mat_dict = {}
     for gen in generators + _supplementary_generators(generators):
-        if len(gen[2]) > 1:
+        if len(gen[2]) > 1 or num_qubits == 1:
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
@@ -116,9 +116,9 @@ def _get_ctmp_error_rate(gen: Generator,
     """
     # pylint: disable=invalid-name
     b, a, c = gen
-    if len(b) == 1:
+    if len(b) == 1 and num_qubits > 1:
         rate = _ctmp_err_rate_1_q(a, b, c[0], g_mat_dict, num_qubits)
-    elif len(b) == 2:
+    else:
         rate = _ctmp_err_rate_2_q(gen, g_mat_dict)
     return rate
 
@@ -129,14 +129,13 @@ def _local_g_matrix(gen: Generator,
     """Computes the G(j,k) matrix in the basis [00, 01, 10, 11]."""
     # pylint: disable=invalid-name
     _, _, c = gen
-    j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    a_mat = assignment_matrix(cal_data, num_qubits, list(c))
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From 8289104f89377c664061b0d5b77884e1505e8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 14/74] fix: tomography fitter keeps all tomography bits when
 there are other registers

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..6496532 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -279,8 +279,10 @@ class TomographyFitter:
                 tup = literal_eval(circ.name)
             else:
                 tup = circ
-            if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+            if marginalize or any(' ' in key for key in counts):
+                # The tomography bits are the first classical register
+                meas_label = tup[-1] if isinstance(tup[-1], tuple) else tup
+                counts = marginal_counts(counts, range(len(meas_label)))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 5a11b27546cacbf1f31add28fa3e5f9ff6260375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 15/74] fix: tomography fitter reports a missing circuit given
 by name

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index 6496532..c79f29f 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -272,7 +272,8 @@ class TomographyFitter:
                 except QiskitError:
                     pass
             if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
+                raise QiskitError("Result for {} not found".format(
+                    getattr(circ, 'name', circ)))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
-- 
2.43.0


From 294135ff57efe7e9aed2caba1f865cc4a5a1dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 16/74] fix: gauge optimisation starts from a vector

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..89ec7e1 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.ravel())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From e2fedc9d03503ffd8d9d9b8b9faa4c4a0f8fe2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 17/74] fix: spam_matrix multiplies the gates in circuit order

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..2cc4526 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -221,7 +221,7 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From 8f52672d31371ebd8c6a60de18bf4bbf56983918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:13 +0000
Subject: [PATCH 18/74] fix: CNOTDihedral accepts exactly the circuits over the
 group

T and S gates, the powers of T written as p, nested gates and single gates
such as CZGate were rejected although they are in the group (T generates
it); u1 angles were truncated to a multiple of pi/4, so u1(-pi/4) became
the identity and u1(0.3) was accepted; circuits with several registers and
conditional gates were misread.
---
 .../randomized_benchmarking/dihedral.py       | 103 +++++++-----------
 1 file changed, 42 insertions(+), 61 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..11f076d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -585,10 +585,6 @@ class CNOTDihedral(BaseOperator):
         if not isinstance(circuit, (QuantumCircuit, Instruction)):
             raise QiskitError("Input must be a QuantumCircuit or Instruction")
 
-        # Convert circuit to an instruction
-        if isinstance(circuit, QuantumCircuit):
-            circuit = circuit.to_instruction()
-
         # Initialize an identity CNOTDihedral object
         elem = CNOTDihedral(self._num_qubits)
         append_circuit(elem, circuit)
@@ -860,70 +856,55 @@ def append_circuit(elem, circuit, qargs=None):
         qargs = list(range(elem.num_qubits))
 
     if isinstance(circuit, QuantumCircuit):
-        gate = circuit.to_instruction()
-    else:
-        gate = circuit
+        for instr, qregs, _ in circuit:
+            append_circuit(elem, instr, [qargs[circuit.qubits.index(qubit)] for qubit in qregs])
+        return elem
+
+    gate = circuit
+    if gate.condition is not None:
+        raise QiskitError('Not a CNOT-Dihedral gate: conditional {}'.format(gate.name))
+
+    if gate.name in ('id', 'x', 'y', 'z', 's', 'sdg', 't', 'tdg', 'u1', 'p'):
+        if len(qargs) != 1:
+            raise QiskitError("Invalid qubits for 1-qubit gate {}.".format(gate.name))
+        if gate.name in ('x', 'y'):
+            elem.flip(qargs[0])
+        if gate.name in ('u1', 'p'):
+            if len(gate.params) != 1:
+                raise QiskitError("Invalid params for 1-qubit gate {}.".format(gate.name))
+            angle = 4 * float(gate.params[0]) / np.pi
+            power = int(np.round(angle))
+            if not np.isclose(angle, power, rtol=0, atol=1e-6):
+                raise QiskitError('Not a CNOT-Dihedral gate: {}({})'.format(
+                    gate.name, gate.params[0]))
+        else:
+            power = {'y': 4, 'z': 4, 's': 2, 'sdg': 6, 't': 1, 'tdg': 7}.get(gate.name, 0)
+        elem.phase(power % 8, qargs[0])
 
-    # Handle cx since it is a basic gate, and cannot be decomposed,
-    # so gate.definition = None
-    if gate.name == 'cx':
+    elif gate.name == 'cx':
         if len(qargs) != 2:
             raise QiskitError("Invalid qubits for 2-qubit gate cx.")
         elem.cnot(qargs[0], qargs[1])
-        return elem
 
-    if gate.definition is None:
-        raise QiskitError('Cannot apply Instruction: {}'.format(gate.name))
-    if not isinstance(gate.definition, QuantumCircuit):
-        raise QiskitError('{} instruction definition is {}; expected QuantumCircuit'.format(
-            gate.name, type(gate.definition)))
-
-    for instr, qregs, _ in gate.definition:
-        # Get the integer position of the flat register
-        new_qubits = [qargs[tup.index] for tup in qregs]
-
-        if (instr.name == 'x' or gate.name == 'x'):
-            if len(new_qubits) != 1:
-                raise QiskitError("Invalid qubits for 1-qubit gate x.")
-            elem.flip(new_qubits[0])
-
-        elif (instr.name == 'z' or gate.name == 'z'):
-            if len(new_qubits) != 1:
-                raise QiskitError("Invalid qubits for 1-qubit gate z.")
-            elem.phase(4, new_qubits[0])
-
-        elif (instr.name == 'y' or gate.name == 'y'):
-            if len(new_qubits) != 1:
-                raise QiskitError("Invalid qubits for 1-qubit gate y.")
-            elem.flip(new_qubits[0])
-            elem.phase(4, new_qubits[0])
-
-        elif (instr.name == 'u1' or gate.name == 'u1'):
-            if (len(new_qubits) != 1 or len(instr.params) != 1):
-                raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
-
-        elif (instr.name == 'cx' or gate.name == 'cx'):
-            if len(new_qubits) != 2:
-                raise QiskitError("Invalid qubits for 2-qubit gate cx.")
-            elem.cnot(new_qubits[0], new_qubits[1])
-
-        elif (instr.name == 'cz' or gate.name == 'cz'):
-            if len(new_qubits) != 2:
-                raise QiskitError("Invalid qubits for 2-qubit gate cz.")
-            elem.phase(7, new_qubits[1])
-            elem.phase(7, new_qubits[0])
-            elem.cnot(new_qubits[1], new_qubits[0])
-            elem.phase(2, new_qubits[0])
-            elem.cnot(new_qubits[1], new_qubits[0])
-            elem.phase(7, new_qubits[1])
-            elem.phase(7, new_qubits[0])
-
-        elif (instr.name == 'id' or gate.name == 'id'):
-            pass
+    elif gate.name == 'cz':
+        if len(qargs) != 2:
+            raise QiskitError("Invalid qubits for 2-qubit gate cz.")
+        elem.phase(7, qargs[1])
+        elem.phase(7, qargs[0])
+        elem.cnot(qargs[1], qargs[0])
+        elem.phase(2, qargs[0])
+        elem.cnot(qargs[1], qargs[0])
+        elem.phase(7, qargs[1])
+        elem.phase(7, qargs[0])
 
-        else:
+    else:
+        # Not a basic gate, apply its definition
+        if gate.definition is None:
             raise QiskitError('Not a CNOT-Dihedral gate: {}'.format(gate.name))
+        if not isinstance(gate.definition, QuantumCircuit):
+            raise QiskitError('{} instruction definition is {}; expected QuantumCircuit'.format(
+                gate.name, type(gate.definition)))
+        append_circuit(elem, gate.definition, qargs)
 
     return elem
 
-- 
2.43.0


From 116c150d21afe087b15d68b8a52c4252af889893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:13 +0000
Subject: [PATCH 19/74] fix: product of CNOTDihedral elements keeps the shift
 as an array

The shift of a product was a list, on which is_cnotdihedral() failed.
---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 11f076d..17f6d69 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -422,8 +422,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = np.mod(self._z2matvecmul(self.linear, other.shift) + self.shift, 2)
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From 27063502f7707ba097093b91c9859bc1d5413d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:13 +0000
Subject: [PATCH 20/74] fix: initialize CNOTDihedral from another element

The constructor failed with an AttributeError.
---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 17f6d69..b8e0aa5 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -358,6 +358,7 @@ class CNOTDihedral(BaseOperator):
         # Initialize from another CNOTDihedral by sharing the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
+            self._num_qubits = data.num_qubits
             self.linear = data.linear
             self.shift = data.shift
             self.poly = data.poly
-- 
2.43.0


From 5b9bd763c20d7bcc419aa6662ec446eecf38711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:13 +0000
Subject: [PATCH 21/74] fix: evaluate a phase polynomial on a binary vector

Taking a list modulo 2 failed with a TypeError.
---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index b8e0aa5..bfd1bf6 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -165,7 +165,7 @@ class SpecialPolynomial():
             if False in [i.n_vars == self.n_vars for i in xval]:
                 raise QiskitError("Evaluate on incompatible polynomials.")
         else:
-            xval = xval % 2
+            xval = [x % 2 for x in xval]
         # Examine each term of this polynomial
         terms0 = [[]]
         terms1 = list(combinations(range(self.n_vars), r=1))
-- 
2.43.0


From 27cfff32777f4f1c88795be2c45669d08d39b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:13 +0000
Subject: [PATCH 22/74] fix: RB sequences with rand_seed=0 or a RandomState

With rand_seed=0 every group element was the same one; a RandomState, which
the documentation allows, raised a TypeError.
---
 .../verification/randomized_benchmarking/circuits.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..48742f1 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -441,9 +441,13 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
-                        rand_seed += (seed + 1)
-                    new_elmnt = rb_group.random(rb_q_num, rand_seed)
+                    if isinstance(rand_seed, RandomState):
+                        elmnt_seed = rand_seed.randint(2**31 - 1)
+                    else:
+                        if rand_seed is not None:
+                            rand_seed += (seed + 1)
+                        elmnt_seed = rand_seed
+                    new_elmnt = rb_group.random(rb_q_num, elmnt_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
                         Elmnts[rb_pattern_index], new_elmnt)
                     general_circ += replace_q_indices(
-- 
2.43.0


From 24ba31ffe8d1107332bbf2de9522573ce6b741a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:13 +0000
Subject: [PATCH 23/74] fix: scalar length multipliers are validated and may be
 None

length_multiplier=None, documented for purity RB, raised a TypeError, and a
scalar multiplier smaller than one was accepted.
---
 .../ignis/verification/randomized_benchmarking/circuits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index 48742f1..08801a3 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -59,11 +59,14 @@ def handle_length_multiplier(length_multiplier, len_pattern,
             raise ValueError(
                 "Length multiplier must be the same length as the pattern")
         length_multiplier = np.array(length_multiplier)
-        if length_multiplier.dtype != 'int' or (length_multiplier < 1).any():
-            raise ValueError("Invalid length multiplier")
     else:
+        if length_multiplier is None:
+            length_multiplier = 1
         length_multiplier = np.ones(len_pattern, dtype='int')*length_multiplier
 
+    if length_multiplier.dtype != 'int' or (length_multiplier < 1).any():
+        raise ValueError("Invalid length multiplier")
+
     return length_multiplier
 
 
-- 
2.43.0


From 4e27f5078e917e7a8c8608230ae8f13b65e66b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:46 +0000
Subject: [PATCH 24/74] fix: initialize CNOTDihedral from an identity ScalarOp

The private attribute _input_dims does not exist in the installed terra.
---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index bfd1bf6..f73a82f 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -365,7 +365,7 @@ class CNOTDihedral(BaseOperator):
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-            if not data.is_unitary() or set(data._input_dims) != {2} or \
+            if not data.is_unitary() or set(data.input_dims()) != {2} or \
                     data.num_qubits is None:
                 raise QiskitError("Can only initialize from N-qubit identity ScalarOp.")
             self._num_qubits = data.num_qubits
-- 
2.43.0


From afaa6e75931a77ddf9e86a7f76a6e54c39d19464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:37 +0000
Subject: [PATCH 25/74] fix: interleaved and CNOT-dihedral RB fitters hold each
 result once

The constructors added the results a second time after the inner RBFitter
had been built from them, and did not handle the default rb_pattern.
---
 .../verification/randomized_benchmarking/fitters.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..2a5baa2 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -524,9 +527,6 @@ class InterleavedRBFitter(RBFitterBase):
         self._rbfit_interleaved = RBFitter(
             interleaved_result, cliff_lengths, rb_pattern)
 
-        self.rbfit_std.add_data(original_result)
-        self.rbfit_int.add_data(interleaved_result)
-
         if not (original_result is None and interleaved_result is None):
             self.fit_data()
 
@@ -1174,6 +1174,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         # Initialize a new CNOTDihedralRBFitter.
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
@@ -1184,9 +1187,6 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._rbfit_X = RBFitter(
             cnotdihedral_X_result, elmnts_lengths, rb_pattern)
 
-        self.rbfit_Z.add_data(cnotdihedral_Z_result)
-        self.rbfit_X.add_data(cnotdihedral_X_result)
-
         if not (cnotdihedral_Z_result is None and
                 cnotdihedral_X_result is None):
             self.fit_data()
-- 
2.43.0


From 98a00574c5385a492e61df0d04ee843f1d0c2488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:37 +0000
Subject: [PATCH 26/74] fix: PurityRBFitter.cliff_lengths does not recurse into
 itself

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 2a5baa2..c653a76 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From 5a1d41e203a3e3912d8daecdb7d899c2c2ed2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:37 +0000
Subject: [PATCH 27/74] fix: PurityRBFitter finds circuits by name, not by
 result position

The basis of the circuits was read from the first circuit of the result at
an assumed position, so results given in another order, split or combined
differently were attributed to the wrong Pauli correlators.
---
 .../randomized_benchmarking/fitters.py        | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index c653a76..384dd7b 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -808,8 +808,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
-                                      rb_pattern)
+        self._rbfit_purity = RBFitter(None, cliff_lengths, rb_pattern)
         self.add_data(purity_result)
 
     @property
@@ -921,7 +920,7 @@ class PurityRBFitter(RBFitterBase):
         if new_purity_result is None:
             return
 
-        self.rbfit_pur.add_data(new_purity_result, rerun_fit)
+        self.rbfit_pur.add_data(new_purity_result, False)
 
         if rerun_fit:
             self.calc_data()
@@ -943,20 +942,23 @@ class PurityRBFitter(RBFitterBase):
         """
         circ_counts = {}
         circ_shots = {}
-        result_count = 0
+
+        # The type of the circuit name as it appears in the result
+        # (before _purity_ and the measured basis of each qubit)
+        self._circ_name_type = self.rbfit_pur.results[0].results[0]. \
+            header.name.split("_purity_")[0]
 
         # Calculating the result output
         for _, seed in enumerate(self.rbfit_pur.seeds):
 
             for pur in range(self._npurity):
 
-                self._circ_name_type = self.rbfit_pur.results[
-                    result_count].results[0].header.name.split("_length")[0]
-                result_count += 1
+                basis = ''.join('ZXY'[pur // 3 ** i % 3]
+                                for i in range(self._nq))
 
                 for circ, _ in enumerate(self._cliff_lengths[0]):
-                    circ_name = self._circ_name_type + '_length_%d_seed_%d' \
-                                % (circ, seed)
+                    circ_name = self._circ_name_type + '_purity_' + basis + \
+                                '_length_%d_seed_%d' % (circ, seed)
                     count_list = []
                     for result in self.rbfit_pur.results:
                         try:
-- 
2.43.0


From e2db02e20023c63bdf9d57a2124c2b51355565af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:37 +0000
Subject: [PATCH 28/74] fix: RB fit guess stays within the bounds of the fit

A fast initial decay gave an amplitude guess above the upper bound, and
points on different sides of the asymptote a negative decay guess; both
are rejected by curve_fit.
---
 .../ignis/verification/randomized_benchmarking/fitters.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 384dd7b..93f852c 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -422,12 +422,13 @@ class RBFitter(RBFitterBase):
             dy = ((y1 - fit_guess[2]) /
                   (y0 - fit_guess[2]))
             alpha_guess = dy**(1/dcliff)
-            if alpha_guess < 1.0:
+            if 0.0 <= alpha_guess < 1.0:
                 fit_guess[1] = alpha_guess
 
             if y0 > fit_guess[2]:
-                fit_guess[0] = ((y0 - fit_guess[2]) /
-                                fit_guess[1]**self._cliff_lengths[patt_ind][0])
+                fit_guess[0] = min(
+                    1.0, ((y0 - fit_guess[2]) /
+                          fit_guess[1]**self._cliff_lengths[patt_ind][0]))
 
             self.fit_data_pattern(patt_ind, tuple(fit_guess))
 
-- 
2.43.0


From 9933fe8b0ed71176bba8de72878f209f62cfa5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:48 +0000
Subject: [PATCH 29/74] fix: gates_per_clifford counts qubits by their index in
 the circuit

The index within the register was used, which mixes up the qubits of
circuits with several registers.
---
 qiskit/ignis/verification/randomized_benchmarking/rb_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 6c5f405..46fa7a5 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -144,10 +144,12 @@ def gates_per_clifford(
         else:
             for transpiled_circuit in transpiled_circuits:
                 if isinstance(transpiled_circuit, QuantumCircuit):
+                    indices = {qubit: index for index, qubit
+                               in enumerate(transpiled_circuit.qubits)}
                     for instr, qregs, _ in transpiled_circuit.data:
                         for qreg in qregs:
                             try:
-                                ngates[qreg.index][instr.name] += 1
+                                ngates[indices[qreg]][instr.name] += 1
                             except KeyError:
                                 pass
                 else:
-- 
2.43.0


From ac890a92024c441f3a50c8c04d88fc60f759fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:48 +0000
Subject: [PATCH 30/74] fix: two-qubit error conversions reject qubits without
 gate counts as documented

---
 .../verification/randomized_benchmarking/rb_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 46fa7a5..d24560d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -457,11 +457,13 @@ def calculate_2q_epg(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     # estimate single qubit gate error contribution
     alpha_1q = [1.0, 1.0]
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
@@ -618,6 +620,10 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
     if n_gate_2q == 0:
         raise QiskitError('Two qubit gate %s is not included in the `gate_per_cliff`. '
@@ -627,8 +633,6 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     alpha_1q = [1.0, 1.0]
     alpha_2q = (1 - 4 / 3 * epg_2q) ** n_gate_2q
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
-- 
2.43.0


From 7ab89a5a1dc772c3aaeb9a7ef2e23c94e84979ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:17 +0000
Subject: [PATCH 31/74] fix: qv_circuits honours seed=0

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..81d15db 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -72,7 +72,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -83,7 +83,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From f6647adadd826cb898faa628fb52e4e43fe5c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:17 +0000
Subject: [PATCH 32/74] fix: qv_circuits uses and measures the listed qubits in
 their order

A list whose largest qubit equals its length was replaced by qubits
0..n-1, and the qubits of an unsorted list were measured in ascending
order, not matching the ideal state of the circuit.
---
 qiskit/ignis/verification/quantum_volume/circuits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 81d15db..ea1f9dc 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -23,6 +23,7 @@ import warnings
 import numpy as np
 
 from qiskit.circuit.library import QuantumVolume
+from qiskit.circuit.classicalregister import ClassicalRegister
 from qiskit.circuit.quantumcircuit import QuantumCircuit
 
 
@@ -89,12 +90,15 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
+            if list(qubit_lists[depthidx]) != list(range(depth)):
                 qc = QuantumCircuit(int(n_q_max + 1))
                 qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             else:
                 qc = qv_circ
-            qc.measure_active()
+            creg = ClassicalRegister(depth, 'measure')
+            qc.add_register(creg)
+            qc.barrier()
+            qc.measure(qubit_lists[depthidx], creg)
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0


From e3119fbd1a6a0a679c635caeafd01a04e2faa790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:17 +0000
Subject: [PATCH 33/74] fix: QVFitter does not keep results which it rejects

A result without ideal distribution was rejected only after it had been
stored, so it was counted when added again.
---
 qiskit/ignis/verification/quantum_volume/fitters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 42032f8..51cf4b2 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -170,6 +170,12 @@ class QVFitter:
         if not isinstance(new_backend_result, list):
             new_backend_result = [new_backend_result]
 
+        for result in new_backend_result:
+            for qvcirc in result.results:
+                if qvcirc.header.name not in self._heavy_output_prob_ideal:
+                    raise QiskitError('Ideal distribution '
+                                      'must be loaded first')
+
         for result in new_backend_result:
             self._result_list.append(result)
 
@@ -180,10 +186,6 @@ class QVFitter:
                 if (ntrials_circ+1) > self._ntrials:
                     self._ntrials = ntrials_circ+1
 
-                if qvcirc.header.name not in self._heavy_output_prob_ideal:
-                    raise QiskitError('Ideal distribution '
-                                      'must be loaded first')
-
         if rerun_fit:
             self.calc_data()
             self.calc_statistics()
-- 
2.43.0


From 9d0a48206060e9c592e2e8221d52c7c4224dd9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 34/74] fix: one-time pad correction follows the measured
 qubits

The correction assumed that qubit i is measured to bit i of a register of
the same size, which does not hold for other measurement maps nor after
layout on a coupling map.
---
 qiskit/ignis/verification/accreditation/qotp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..2e42f9e 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,11 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations: the bit flips of the qubits measured to each clbit
+    qotp_postp = np.zeros(len(cregs), dtype=int)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(qotp_postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From 18600d65e947f09b784e0385a3bce4a3d461f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 35/74] fix: layer_parser rejects mid-circuit measurements and
 conditions

Measurements are moved to the end of the circuit, so operations on a
measured qubit and conditional ones were silently reordered.
---
 qiskit/ignis/verification/accreditation/qotp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index 2e42f9e..7253523 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -63,12 +63,19 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
     measlayer = QuantumCircuit(qregs, cregs)
     # some flags for simplicity
     current2qs = []
+    measured = []
     # loop through circuit (best to use the dag object)
     dag_internal = circuit_to_dag(circ_internal)
     for dag_layer in dag_internal.layers():
         circuit_layer = dag_to_circuit(dag_layer['graph'])
         for circelem, qsub, csub in circuit_layer:
             n = circelem.name
+            if n != "barrier" and any(q in measured for q in qsub):
+                raise QiskitError("Operations after a measurement"
+                                  " are not implemented in qotp")
+            if circelem.condition is not None:
+                raise QiskitError("Conditional operations"
+                                  " are not implemented in qotp")
             if n == "barrier":
                 # if a barrier separates any two qubit gates
                 # start a new layer
@@ -109,6 +116,7 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
                 current2qs.append(q_1)
             elif n == "measure":
                 measlayer.append(circelem, qsub, csub)
+                measured.extend(qsub)
             else:
                 raise QiskitError("Circuit element {0}".format(n)
                                   + " is not implemented in qotp")
-- 
2.43.0


From 0a1f3768b52d55d2c4277d3f33a2dde25928a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 36/74] fix: accreditation fitters do not share their list of
 outputs

---
 .../verification/accreditation/fitters.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..f699de7 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -38,15 +38,15 @@ class AccreditationFitter:
     https://iopscience.iop.org/article/10.1088/1367-2630/ab4fd6
     """
 
-    bound = 1
-    confidence = 1
-    N_acc = 0
-    num_runs = 0
-    flag = 'accepted'
-    outputs = []
-    num_runs = 0
-    num_traps = 0
-    g_num = 1
+    def __init__(self):
+        self.bound = 1
+        self.confidence = 1
+        self.N_acc = 0
+        self.num_runs = 0
+        self.flag = 'accepted'
+        self.outputs = []
+        self.num_traps = 0
+        self.g_num = 1
 
     def single_protocol_run(self, results, postp_list, v_zero):
         """
-- 
2.43.0


From b74aba4dc92fd83e165e599eef54be61cc6029ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 37/74] fix: accreditation fitter rejects invalid runs

The errors were constructed but never raised; a rejected run leaves the
counters unchanged.
---
 .../verification/accreditation/fitters.py     | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index f699de7..a8d9993 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -56,20 +56,19 @@ class AccreditationFitter:
             results (Result): results of the quantum job
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
-        """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
 
+        Raises:
+            QiskitError: If the number of traps is below 3 or differs from
+                previous runs, or the data is not single shot
+        """
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        num_traps = len(postp_list)-1
+        if self.num_runs > 0 and num_traps != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the"
+                              " same number of traps")
+
+        if num_traps < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -82,8 +81,11 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+        self.num_runs = self.num_runs + 1
+        self.num_traps = num_traps
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
@@ -102,10 +104,13 @@ class AccreditationFitter:
 
         Args:
             theta (float): number between 0 and 1
+
+        Raises:
+            QiskitError: If no run was accepted
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires"
+                              " at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 31c2c895519c1d67ce885e5c2c34004c5f60595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 38/74] fix: accreditation bound does not keep the value of
 earlier runs

When the acceptance rate had dropped to theta or below, the bound and
confidence of a previous call were left in place.
---
 qiskit/ignis/verification/accreditation/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index a8d9993..44585f5 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -111,6 +111,9 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires"
                               " at least one accepted run")
+        # the trivial bound, unless enough runs were accepted
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 5505e6e597d6ef08f31d90797a95e5615d42806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 39/74] fix: accreditation confidence is Hoeffding's bound

The acceptance rate of n runs is within theta of its expectation with
confidence 1-2*exp(-2*theta**2*n).
---
 qiskit/ignis/verification/accreditation/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 44585f5..f155494 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -118,6 +118,6 @@ class AccreditationFitter:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
             self.bound = self.bound+1-self.g_num
-            self.confidence = 1-2*np.exp(-2*theta*self.num_runs*self.num_runs)
+            self.confidence = 1-2*np.exp(-2*theta*theta*self.num_runs)
         if self.bound > 1:
             self.bound = 1
-- 
2.43.0


From 9b857510cf5f5bfd72271861596bf0fc47d4650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:10 +0000
Subject: [PATCH 40/74] fix: GraphDecoder does not truncate the distances of
 weighted graphs

---
 qiskit/ignis/verification/topological_codes/fitters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..e87abb7 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -240,8 +240,8 @@ class GraphDecoder():
             for source in E[subgraph]:
                 for target in E[subgraph]:
                     if target != (source):
-                        distance = int(nx.shortest_path_length(
-                            self.S, source, target, weight='distance'))
+                        distance = nx.shortest_path_length(
+                            self.S, source, target, weight='distance')
                         E[subgraph].add_edge(source, target, weight=-distance)
 
         return E
-- 
2.43.0


From e8cabfb20d907beed98cd8ec3dda8987b598ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:10 +0000
Subject: [PATCH 41/74] fix: weight_syndrome_graph gives errors which were not
 seen finite weights

---
 qiskit/ignis/verification/topological_codes/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index e87abb7..09048b3 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -195,7 +195,9 @@ class GraphDecoder():
             for elements in [('00', '11'), ('11', '00'),
                              ('01', '10'), ('10', '01')]:
                 if count[elements[1]][edge] > 0:
-                    ratio = count[elements[0]][edge]/count[elements[1]][edge]
+                    # the ratio of errors which were not seen is below this
+                    ratio = max(count[elements[0]][edge], 1) \
+                        / count[elements[1]][edge]
                     ratios.append(ratio)
             edge_data['distance'] = -np.log(min(ratios))
 
-- 
2.43.0


From 607202206152083fdcf75a0ce25a229bfed155f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:10 +0000
Subject: [PATCH 42/74] fix: lookuptable_decoding compares frequencies of the
 training results

---
 qiskit/ignis/verification/topological_codes/fitters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 09048b3..4cc6e96 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -428,10 +428,14 @@ def lookuptable_decoding(training_results, real_results):
         probability is calculated for the results in `real_results`.
     """
 
+    training_shots = {log: max(sum(training_results[log].values()), 1)
+                      for log in ['0', '1']}
+
     logical_prob = {}
     for log in real_results:
         shots = 0
         incorrect_shots = 0
+        wrong_log = '1' * (log == '0') + '0' * (log == '1')
         for string in real_results[log]:
 
             p = {}
@@ -442,7 +446,9 @@ def lookuptable_decoding(training_results, real_results):
                     p[testlog] = 0
 
             shots += real_results[log][string]
-            if p['1' * (log == '0') + '0' * (log == '1')] > p[log]:
+            # compare the frequencies p/training_shots
+            if p[wrong_log] * training_shots[log] \
+                    > p[log] * training_shots[wrong_log]:
                 incorrect_shots += real_results[log][string]
 
         logical_prob[log] = incorrect_shots / shots
-- 
2.43.0


From d6b1333b8d7742517951af5d1e8203cf01446db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 43/74] fix: zz_circuits accepts a list of gate numbers

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From 2da76456f8cc33b6b72c7ebf3b635eb815e2df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 44/74] fix: shared spectators and control qubits are excited
 once

When several qubits had the same spectator (or control) it was flipped
once for each of them, so that for two qubits it ended in its ground state.
---
 qiskit/ignis/characterization/gates/circuits.py       | 8 ++++++--
 qiskit/ignis/characterization/hamiltonian/circuits.py | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..5e889a5 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -159,7 +159,9 @@ def ampcal_cx_circuits(max_reps, qubits, control_qubits):
         circ = qiskit.QuantumCircuit(qr, cr)
         circ.name = 'ampcalcxcircuit_' + str(circ_index) + '_0'
         for qind, qubit in enumerate(qubits):
-            circ.x(qr[control_qubits[qind]])
+            # several qubits can have the same control
+            if control_qubits[qind] not in control_qubits[:qind]:
+                circ.x(qr[control_qubits[qind]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
             for _ in range(circ_length):
                 circ.barrier([qr[control_qubits[qind]], qr[qubit]])
@@ -214,7 +216,9 @@ def anglecal_cx_circuits(max_reps, qubits, control_qubits, angleerr=0.0):
         circ = qiskit.QuantumCircuit(qr, cr)
         circ.name = 'anglecalcxcircuit_' + str(circ_index) + '_0'
         for qind, qubit in enumerate(qubits):
-            circ.x(qr[control_qubits[qind]])
+            # several qubits can have the same control
+            if control_qubits[qind] not in control_qubits[:qind]:
+                circ.x(qr[control_qubits[qind]])
             circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Y90p (target)
             for _ in range(circ_length):
                 if angleerr != 0:
diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index b554c5b..41a2852 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -69,7 +69,8 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         for circ_index, circ_length in enumerate(num_of_gates):
             circ = qiskit.QuantumCircuit(qr, cr)
             circ.name = 'zzcircuit_' + str(circ_index) + '_%d' % qflip
-            for _, qspec in enumerate(spectators):
+            # several qubits can have the same spectator
+            for qspec in sorted(set(spectators)):
                 if qflip:
                     circ.x(qr[qspec])
             circ.barrier(qr)
-- 
2.43.0


From f976ea4444eed24011bb12d7fac74c59747393fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 45/74] fix: calibration schedules raise the errors for missing
 maps

---
 .../calibrations/pulse_schedules.py              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 6c06129..82aee0b 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -60,11 +60,11 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
     # To keep function interface constant, errors are inserted here.
     # TODO: redesign this function in next release
     if inst_map is None:
-        QiskitError('Instruction schedule map is not provided. ',
-                    'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
+        raise QiskitError('Instruction schedule map is not provided. ',
+                          'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
     if meas_map is None:
-        QiskitError('Measurement map is not provided. ',
-                    'Run `backend.configuration().meas_map` to get meas_map.')
+        raise QiskitError('Measurement map is not provided. ',
+                          'Run `backend.configuration().meas_map` to get meas_map.')
 
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
@@ -122,11 +122,11 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
     # To keep function interface constant, errors are inserted here.
     # TODO: redesign this function in next release
     if inst_map is None:
-        QiskitError('Instruction schedule map is not provided. ',
-                    'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
+        raise QiskitError('Instruction schedule map is not provided. ',
+                          'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
     if meas_map is None:
-        QiskitError('Measurement map is not provided. ',
-                    'Run `backend.configuration().meas_map` to get meas_map.')
+        raise QiskitError('Measurement map is not provided. ',
+                          'Run `backend.configuration().meas_map` to get meas_map.')
 
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
-- 
2.43.0


From 182bb7bcb5e81d7359daaeb7cf1cd39d31aee9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 46/74] fix: calibration schedules measure to the slots which
 the fitters read

RabiFitter and DragFitter take the data of the k-th qubit from slot k, but
the schedules measured qubit q to slot q.
---
 .../characterization/calibrations/pulse_schedules.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 82aee0b..658d6ae 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -69,6 +69,9 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
 
+    # measure to the slots which the fitters read
+    mem_slots = {qubit: qind for qind, qubit in enumerate(qubits)}
+
     # Construct the schedules
     rabi_scheds = []
     for index, g_amp in enumerate(amp_list):
@@ -79,7 +82,8 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
         sched = pulse.Schedule(name='rabisched_%d_0' % index)
         for qubit in qubits:
             sched += pulse.Play(rabi_pulse, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots=mem_slots).shift(pulse_width)
         rabi_scheds.append(sched)
 
     return rabi_scheds, xdata
@@ -131,6 +135,9 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
 
+    # measure to the slots which the fitters read
+    mem_slots = {qubit: qind for qind, qubit in enumerate(qubits)}
+
     # Construct the schedules
     drag_scheds = []
     for index, b_amp in enumerate(beta_list):
@@ -148,7 +155,8 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
                                           name='drag_pulse_%d_%d' % (index, qubit))
             sched += pulse.Play(drag_pulse_p, drives[qubit])
             sched += pulse.Play(drag_pulse_m, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(2*pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots=mem_slots).shift(2*pulse_width)
         drag_scheds.append(sched)
 
     return drag_scheds, xdata
-- 
2.43.0


From ddd7b058bb98ff299a7695776cb0d6297a4681e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 47/74] fix: IQ fitters average single shot data over the shots

---
 qiskit/ignis/characterization/fitters.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..5bc3a79 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -448,11 +448,9 @@ class IQFitter(BaseFitter):
                 else:
 
                     # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    iq_list[sname] = np.concatenate(
+                        (iq_list.get(sname, np.zeros([0, mem_slots])),
+                         single_result.get_memory(sname)))
 
         for sname in iq_list:
 
@@ -460,8 +458,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.mean(iq_list[sname], axis=0)
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From c62bc73cf612fd2bde7e25a646d908a6a3b35926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 48/74] fix: IQ fitters project on the direction of largest
 spread

The projection assumed that I and Q grow together; the signal of data where
they do not was lost.
---
 qiskit/ignis/characterization/fitters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5bc3a79..d6f9653 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -495,11 +495,11 @@ class IQFitter(BaseFitter):
                 # mean over all the experiment
                 q_exp_mean = np.mean(mean_list)
                 mean_list -= q_exp_mean
-                real_ext = np.mean(np.abs(np.real(mean_list)))
-                imag_ext = np.mean(np.abs(np.imag(mean_list)))
-                crot = real_ext/(real_ext**2+imag_ext**2)**0.5
-                srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
-                mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
+                # direction of the largest spread
+                real_list, imag_list = np.real(mean_list), np.imag(mean_list)
+                angle = 0.5*np.arctan2(2*np.sum(real_list*imag_list),
+                                       np.sum(real_list**2-imag_list**2))
+                mean_list = np.cos(angle)*real_list+np.sin(angle)*imag_list
                 self._ydata[serieslbl][-1]['mean'] = mean_list
 
     def plot(self, qind, series='0', ax=None, show_plot=True):
-- 
2.43.0


From bf6d6b5ae163de44bd17a2f8f1eca9d379030b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 49/74] fix: characterization fitters do not keep results which
 they reject

---
 qiskit/ignis/characterization/fitters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index d6f9653..310105a 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -228,6 +228,7 @@ class BaseFitter:
             refit: whether to refit the data
         """
 
+        num_results = len(self._backend_result_list)
         if isinstance(results, list):
             for result in results:
                 self._backend_result_list.append(result)
@@ -235,7 +236,12 @@ class BaseFitter:
             self._backend_result_list.append(results)
 
         if recalc:
-            self._calc_data()  # computes self._ydata
+            try:
+                self._calc_data()  # computes self._ydata
+            except QiskitError:
+                # do not keep results which are rejected
+                del self._backend_result_list[num_results:]
+                raise
 
         if refit:
             self.fit_data()
-- 
2.43.0


From 31057396552a6a4e53e90f26185bcfca6eac9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:36 +0000
Subject: [PATCH 50/74] fix: the artificial angle error applies to the last X90
 as well

The X90 pulses of the repetitions were turned by 2*angleerr, the last one by
angleerr only, so that the data did not follow the curve of the fitter.
---
 qiskit/ignis/characterization/gates/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 5e889a5..04f21a0 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -112,7 +112,7 @@ def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
                     circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Yp
 
             if angleerr != 0:
-                circ.append(U1Gate(-angleerr), [qr[qubit]])
+                circ.append(U1Gate(-2*angleerr), [qr[qubit]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
         for qind, qubit in enumerate(qubits):
             circ.measure(qr[qubit], cr[qind])
-- 
2.43.0


From fc1a1f4bc1bbf44e2087a17ee9b7d9a93103e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:10 +0000
Subject: [PATCH 51/74] fix: IQ fitters check the level of the data first

Counts have no meas_return, so that they raised an AttributeError.
---
 qiskit/ignis/characterization/fitters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 310105a..4ff9330 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -424,6 +424,9 @@ class IQFitter(BaseFitter):
                 sname = result.header.name
                 mem_slots = result.header.memory_slots
 
+                if result.meas_level != 1:
+                    raise QiskitError('This fitter works with IQ data')
+
                 if meas_ret == '':
                     # update
                     if result.meas_return == 'avg':
@@ -431,9 +434,6 @@ class IQFitter(BaseFitter):
                     else:
                         meas_ret = 'single'
 
-                if result.meas_level != 1:
-                    raise QiskitError('This fitter works with IQ data')
-
                 if meas_ret != result.meas_return:
                     raise QiskitError('All data must be single shot or '
                                       'averaged')
-- 
2.43.0


From 0e7812085a2f963235622065f7d12c997d4beb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 52/74] fix: discriminator labels match the calibration data
 they describe

get_xdata kept the data of the last matching Result (the documentation says the
first), get_ydata repeated the label for every matching Result and, for averaged
data, once per memory slot.
---
 qiskit/ignis/measurement/discriminator/iq_discriminators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..150f1fb 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -104,6 +104,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
                 for result in results:
                     try:
                         iq_data = result.get_memory(schedule)
+                        break
                     except QiskitError:
                         pass
             else:
@@ -151,8 +152,9 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
             for result in results:
                 try:
                     iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
+                    n_shots = len(self.format_iq_data(iq_data))
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
+                    break
                 except QiskitError:
                     pass
 
-- 
2.43.0


From 9e2f4225c556c0e0d31c48c56d25a2463c7404a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 53/74] fix: discriminator add_data keeps the earlier
 calibration data

---
 .../ignis/measurement/discriminator/discriminators.py  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..b44dcbf 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -70,7 +70,7 @@ class BaseDiscriminationFitter(ABC):
         self._standardize = standardize
         self._scaler = None
         self._qubit_mask = qubit_mask
-        self._schedules = schedules
+        self._schedules = list(schedules)
         self._backend_result_list = []
         self._fitted = False
 
@@ -112,11 +112,11 @@ class BaseDiscriminationFitter(ABC):
         if schedules is None:
             schedules = self._get_schedules(result, 0)
 
-        self._backend_result_list.append(result)
         self._add_expected_states(expected_states, schedules)
+        self._backend_result_list.append(result)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
+        self._ydata = self._ydata + self.get_ydata(result, 0, schedules)
 
         if refit:
             self.fit()
@@ -281,7 +281,7 @@ class BaseDiscriminationFitter(ABC):
         Raises:
             ImportError: If sckit-learn is not installed
         """
-        if not self._standardize:
+        if not self._standardize or len(xdata) == 0:
             return xdata
 
         try:
-- 
2.43.0


From fd4067f8076ba950da25dc427242ee727f94c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 54/74] fix: discriminator expected states from Schedule
 objects

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index b44dcbf..398a687 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From 706e7031a62e1fd96d8a7062cf286c50921664ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 55/74] fix: discrimination filter gives each experiment its
 own data

Averaged experiments have one entry, not one per shot, experiments of the same
name all got the data of the first, and a list of Results was not accepted.
---
 .../measurement/discriminator/filters.py      | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..16f5862 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -18,7 +18,7 @@
 """
 Discrimination filters.
 """
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import List
 
 from qiskit.exceptions import QiskitError
@@ -68,31 +68,28 @@ class DiscriminationFilter:
         Returns:
             A list of qiskit.Result or qiskit.Result.
         """
+        if isinstance(raw_data, list):
+            return [self.apply(result) for result in raw_data]
+
         new_results = deepcopy(raw_data)
 
         to_be_discriminated = []
 
         # Extract all the meas level 1 data from the Result.
-        shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
                 to_be_discriminated.append(result)
 
         new_results.results = to_be_discriminated
 
-        x_data = self.discriminator.get_xdata(new_results, 2)
-        y_data = self.discriminator.discriminate(x_data)
+        for result in new_results.results:
+            single_result = copy(new_results)
+            single_result.results = [result]
 
-        start = 0
-        for idx, n_shots in enumerate(shots_per_experiment_result):
-            memory = y_data[start:(start+n_shots)]
+            x_data = self.discriminator.get_xdata(single_result, 2)
+            memory = self.discriminator.discriminate(x_data)
             counts = self.count(memory)
-            new_results.results[idx].data = ExperimentResultData(counts=counts,
-                                                                 memory=memory)
-            start += n_shots
-
-        for result in new_results.results:
+            result.data = ExperimentResultData(counts=counts, memory=memory)
             result.meas_level = 2
 
         return new_results
-- 
2.43.0


From 2707e34dd223aed3c97c940085ce15e6db9bae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:22 +0000
Subject: [PATCH 56/74] fix: logging configuration keeps the case and the
 colons of the log file

---
 qiskit/ignis/logging/ignis_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..620433d 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -178,10 +178,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -196,7 +196,7 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
+            log_config.get('file_logging', '').lower() == "true"
         IgnisLogging._log_file = log_config.get('log_file') if \
             log_config.get('log_file') is not None else "ignis.log"
         max_size = log_config.get('max_size')
-- 
2.43.0


From 4dc46a4232024a6d351d582343a4af3450f01de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:22 +0000
Subject: [PATCH 57/74] fix: getting a logger again does not configure it again

Every call added another console handler, which log_to_file then wrote to, and
enabled file logging that had been disabled.
---
 qiskit/ignis/logging/ignis_logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 620433d..e8a36e2 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -218,6 +218,7 @@ class IgnisLogging:
                 logger._file_handler = None
                 logger._file_logging_enabled = False
                 logger.removeHandler(logger._stream_handler)
+                logger._stream_handler = None
 
     def get_logger(self, name: str) -> IgnisLogger:
         """
@@ -234,7 +235,8 @@ class IgnisLogging:
         logger = logging.getLogger(name)
         assert(isinstance(logger, IgnisLogger)), \
             "IgnisLogger class was not registered"
-        self._configure_logger(logger)
+        if logger._stream_handler is None:
+            self._configure_logger(logger)
 
         return logger
 
-- 
2.43.0


From 8882f147faeddc71c8dadd2516cc7f297c19c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 58/74] fix: log_to_file writes to the log file only

The entries propagated to the console handlers of parent loggers, and entries
logged at the same time by several threads were lost or printed, because the
handlers of the logger were exchanged during the call.
---
 qiskit/ignis/logging/ignis_logging.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index e8a36e2..6126014 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -91,17 +91,12 @@ class IgnisLogger(logging.getLoggerClass()):
 
         assert(self._file_handler is not None), "file_handler is not set"
 
-        # Removing the stream handler to avoid printing to console here
-        Logger.removeHandler(self, self._stream_handler)
-        Logger.addHandler(self, self._file_handler)
         logstr = ""
         for k, v in kwargs.items():
             logstr += "'{}':'{}' ".format(k, v)
 
-        Logger.log(self, 100, logstr)
-
-        Logger.removeHandler(self, self._file_handler)
-        Logger.addHandler(self, self._stream_handler)
+        # Using the file handler directly to avoid printing to console here
+        self._file_handler.handle(self.makeRecord(self.name, 100, "", 0, logstr, (), None))
 
     def enable_file_logging(self):
         """
-- 
2.43.0


From a95aa9161c3c6e2205a7fac3b9d0b552e09bcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 59/74] fix: all loggers write through the same log file
 handler

---
 qiskit/ignis/logging/ignis_logging.py | 35 ++++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 6126014..658f09e 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -17,6 +17,7 @@ import logging.config
 from logging import Logger
 import os
 import glob
+import threading
 from datetime import datetime
 import re
 from typing import List, Union, Optional
@@ -146,6 +147,8 @@ class IgnisLogging:
     _log_label = "ignis_logging"
     _default_datefmt = '%Y/%m/%d %H:%M:%S'
     _config_file_exists = False
+    _file_handler = None
+    _file_handler_lock = threading.Lock()
 
     # Making the class a Singleton
     def __new__(cls, log_config_path=None):
@@ -208,6 +211,7 @@ class IgnisLogging:
             IgnisLogging._file_logging_enabled = False
             IgnisLogging._log_file = None
             IgnisLogging._config_file_exists = False
+            IgnisLogging._file_handler = None
             logger = logging.getLogger(name)
             if isinstance(logger, IgnisLogger):
                 logger._file_handler = None
@@ -243,18 +247,25 @@ class IgnisLogging:
         Returns:
             RotatingFileHandler: The configured RotatingFileHandler object
         """
-        # Configuring the file handling aspect
-        fh = logging.handlers.RotatingFileHandler(
-            IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
-            backupCount=IgnisLogging._max_rotations)
-
-        # Formatting
-        formatter = logging.Formatter(
-            '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
-            datefmt=IgnisLogging._default_datefmt)
-        fh.setFormatter(formatter)
-
-        return fh
+        with IgnisLogging._file_handler_lock:
+            # All the loggers share one handler, since the rotation of the
+            # file by one handler would go unnoticed by the others
+            if IgnisLogging._file_handler is not None:
+                return IgnisLogging._file_handler
+
+            # Configuring the file handling aspect
+            fh = logging.handlers.RotatingFileHandler(
+                IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
+                backupCount=IgnisLogging._max_rotations)
+
+            # Formatting
+            formatter = logging.Formatter(
+                '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
+                datefmt=IgnisLogging._default_datefmt)
+            fh.setFormatter(formatter)
+
+            IgnisLogging._file_handler = fh
+            return fh
 
     def _configure_logger(self, logger):
         """
-- 
2.43.0


From ac5125674875b413d05de4f9732a2fe965d0019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 60/74] fix: log files are found and sorted by their names

Names with special characters were not found, other files were taken for log
files, and files rotated within the resolution of the file times came in any
order.
---
 qiskit/ignis/logging/ignis_logging.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 658f09e..22667d1 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -324,18 +324,17 @@ class IgnisLogReader:
         """
 
         file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
-        files = sorted(glob.glob(search_path), key=os.path.getmtime)
+        file_path = os.path.abspath(file_name)
 
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
-        for f in files:
-            if m.match(f):
-                result.append(f)
-
-        return result
+        m = re.compile(re.escape(file_path) + r"(?:\.(\d+))?$")
+        for f in glob.glob(glob.escape(file_path) + "*"):
+            match = m.match(f)
+            if match:
+                result.append((int(match.group(1) or 0), f))
+
+        # Each rotation increments the numbers, the last one is the oldest
+        return [f for _, f in sorted(result, reverse=True)]
 
     def read_values(self, log_files: Optional[List[str]] = None,
                     keys: Optional[List[str]] = None,
-- 
2.43.0


From 41f1a43b5b161746cc4ee70cf5c018337eb80d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 61/74] fix: log reader keeps values with white space in one
 piece

Values such as [1, 2, 4] were split at the spaces, their tails were lost when
reading by keys, and values of several lines failed with date criteria.
---
 qiskit/ignis/logging/ignis_logging.py | 42 +++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 22667d1..a22eeaa 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -376,8 +376,8 @@ class IgnisLogReader:
 
         for file in files:
             with open(file, "r") as f:
-                for line in f:
-                    terms = line.split()
+                for line in self._get_entries(f):
+                    terms = line.split(maxsplit=3)
                     date_time = terms[0:2]
 
                     dt_filterd = self._filter_by_datetime(date_time,
@@ -388,7 +388,7 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    key_values = self._split_key_values(terms[3:])
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
@@ -398,6 +398,42 @@ class IgnisLogReader:
 
         return retrieved_date
 
+    def _get_entries(self, lines):
+        """
+        Join the lines of values that span several lines
+
+        Params:
+            lines (iterable): the lines of a log file
+
+        Returns:
+            list: a list of log entries
+        """
+        entries = list()
+        for line in lines:
+            if entries and not re.match(r"\d+/\d+/\d+ \d+:\d+:\d+ ", line):
+                entries[-1] += line
+            else:
+                entries.append(line)
+
+        return entries
+
+    def _split_key_values(self, terms):
+        """
+        Split the text of a log entry to key value pairs. Values may contain
+        white space and quotes
+
+        Params:
+            terms (list): the text of the log entry, or an empty list
+
+        Returns:
+            list: a list of key value pairs
+        """
+        result = list()
+        for text in terms:
+            result += re.findall(r"'[^'\s]+':'.*?'(?=\s+'[^'\s]+':'|\s*$)", text, re.DOTALL)
+
+        return result
+
     def _filter_keys(self, key_values, keys):
         """
         Retrieve key value pairs matching the given keys
-- 
2.43.0


From 3c9112c3d53a623e76206292a3e3c6045cdf25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:08 +0000
Subject: [PATCH 62/74] fix: raw MQC fidelity uses the raw populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From fa748947835e77bf3a5451f2db61d560c78ced40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:08 +0000
Subject: [PATCH 63/74] fix: GHZ tiers of large devices

The search visited the qubits once for each way to reach them, which is
exponential in the distance, and gave up after 50 steps.
---
 qiskit/ignis/verification/entanglement/parallelize.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 18fe4e9..332d250 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -176,28 +176,24 @@ class BConfig:
 
         parentlist = []
         parentlist.append(parent)
-        ii = 0
-        while True:
+        while parentlist:
             totalchildren = []
             for parent in parentlist:
                 children = self.nodes[parent]
                 if self.indicator:
                     children = self._child_sorter(children, parent)
-                totalchildren += children
                 children = [a for a in children if a not in trashlist]
+                totalchildren += children
                 j = tier_DM[parent]
                 for i, _ in enumerate(children):
                     tier[j] += [[parent, children[i]]]
                     tier_DM[children[i]] = j+1
                     j += 1
                     trashlist.append(children[i])
-                parentlist = totalchildren
+            parentlist = totalchildren
 
             if len(trashlist) == length:
                 break
-            ii += 1
-            if ii > 50:
-                break
 
         newtier = {}
         for a in tier:
-- 
2.43.0


From 15ee3b33fa7939cd5daf8546e895e88c2b4dfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:08 +0000
Subject: [PATCH 64/74] fix: GHZ layout of one qubit, and of more qubits than
 there are

The first failed, the latter gave a circuit that is not a GHZ state.
---
 qiskit/ignis/verification/entanglement/parallelize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 332d250..7ffba03 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -33,6 +33,7 @@ from qiskit.circuit import ClassicalRegister, QuantumRegister, Parameter
 from qiskit.circuit import QuantumCircuit
 from qiskit.compiler import transpile
 from qiskit.circuit.library import U1Gate, U2Gate
+from qiskit.exceptions import QiskitError
 
 
 class BConfig:
@@ -221,6 +222,9 @@ class BConfig:
 
         Returns:
            A GHZ Circuit and its initial GHZ layout
+
+        Raises:
+           QiskitError: if the device has less than n connected qubits
        """
 
         tierdict = self.get_tier_dict()
@@ -237,6 +241,8 @@ class BConfig:
                     initial_layout[q[trashindex]] = aa[0]
                 else:
                     pass
+                if len(trashlist) == n:
+                    break
                 if aa[1] not in trashlist:
                     trashlist.append(aa[1])
                     trashindex = trashlist.index(aa[1])
@@ -253,6 +259,9 @@ class BConfig:
             if len(trashlist) == n:
                 break
 
+        if len(trashlist) != n:
+            raise QiskitError('A GHZ state of %i qubits does not fit the device' % n)
+
         if transpiled:
             circ = transpile(circ, backend=self.backend,
                              initial_layout=initial_layout)
-- 
2.43.0


From d2ed1e135eda605fff3a0b9f666731782ee2b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:11 +0000
Subject: [PATCH 65/74] fix: calibration fitters count experiments which share
 their name

The counts of the first one were used for all of them.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index ab1c10d..8a0fcc9 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -403,7 +403,7 @@ class TensoredMeasFitter():
 
         # go through for each calibration experiment
         for result in self._result_list:
-            for experiment in result.results:
+            for exp_index, experiment in enumerate(result.results):
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
@@ -417,7 +417,8 @@ class TensoredMeasFitter():
                 state = circ_search.group(0)
 
                 # get the counts from the result
-                state_cnts = result.get_counts(circ_name)
+                # (by position, as names may repeat in a result)
+                state_cnts = result.get_counts(exp_index)
                 for measured_state, counts in state_cnts.items():
                     end_index = self.nqubits
                     for cal_ind, cal_mat in enumerate(self._cal_matrices):
-- 
2.43.0


From 9231dcf2397c37ecd1cb723fe9951d684f0d0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:19 +0000
Subject: [PATCH 66/74] fix: RB accepts the group names NonClifford and
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 7b333a5..4566634 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -37,7 +37,7 @@ class RBgroup():
                                                   'clifford'):
             self._rb_group = Clifford
         elif group_gates in ('1', 'Non-Clifford',
-                             'NonClifford'
+                             'NonClifford',
                              'CNOTDihedral',
                              'CNOT-Dihedral'):
             self._rb_group = CNOTDihedral
-- 
2.43.0


From f24be1ea0be61e80d366ec85c4e1a3376c725756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 67/74] fix: get_single_q_pulse returns the pi/2 pulse, not its
 negative

The Y90 pulse of u2 is the X90 pulse times +i (as update_u_gates and the device
definitions have it); it was compared with the pulse times -i, so the
amplitude came out negative and gates updated with it rotate backwards.
---
 qiskit/ignis/characterization/calibrations/ibmq_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/calibrations/ibmq_utils.py b/qiskit/ignis/characterization/calibrations/ibmq_utils.py
index e39e9d3..8ffa4a1 100644
--- a/qiskit/ignis/characterization/calibrations/ibmq_utils.py
+++ b/qiskit/ignis/characterization/calibrations/ibmq_utils.py
@@ -42,7 +42,7 @@ def _fit_drag_func(duration, amp, sigma, beta, exp_samples):
     """
 
     fit_pulse = pulse_lib.drag(duration=duration, amp=amp, sigma=sigma,
-                               beta=beta).samples*np.exp(-1j*np.pi/2)
+                               beta=beta).samples*np.exp(1j*np.pi/2)
 
     return np.concatenate((fit_pulse.real, fit_pulse.imag))-exp_samples
 
-- 
2.43.0


From 061fa2905453193caaf76356e10caccc15e9326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:28 +0000
Subject: [PATCH 68/74] fix: tensored mitigator overhead is positive when
 readout is mostly wrong

---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index d98cecc..78e7ca6 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -54,7 +54,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             # Compute Gamma values
             error0 = mat[1, 0]
             error1 = mat[0, 1]
-            self._gammas[i] = (1 + abs(error0 - error1)) / (1 - error0 - error1)
+            self._gammas[i] = (1 + abs(error0 - error1)) / abs(1 - error0 - error1)
             # Compute inverse mitigation matrix
             try:
                 ainv = np.linalg.inv(mat)
-- 
2.43.0


From 31f77b57a7fcc1fd21a807d92ed2bb926b47344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 69/74] fix: tomography fitters combine counts of a circuit run
 in several results

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index c79f29f..36cab87 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -268,9 +268,11 @@ class TomographyFitter:
             counts = None
             for result in results:
                 try:
-                    counts = result.get_counts(circ)
+                    new_counts = result.get_counts(circ)
                 except QiskitError:
-                    pass
+                    continue
+                counts = (new_counts if counts is None
+                          else combine_counts(counts, new_counts))
             if counts is None:
                 raise QiskitError("Result for {} not found".format(
                     getattr(circ, 'name', circ)))
-- 
2.43.0


From 0078961af57b5a54670acb2d8aa939d79a12cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:45 +0000
Subject: [PATCH 70/74] fix: purity RB plots accept lists of Clifford lengths

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 93f852c..38a4af0 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -1117,7 +1117,7 @@ class PurityRBFitter(RBFitterBase):
             plt.figure()
             ax = plt.gca()
 
-        xdata = self._cliff_lengths[pattern_index]
+        xdata = np.asarray(self._cliff_lengths[pattern_index])
 
         # Plot the result for each sequence
         for one_seed_data in self.rbfit_pur.raw_data[pattern_index]:
-- 
2.43.0


From 57384cb7136c8cefe5307dfe3f655fd51e09713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:45 +0000
Subject: [PATCH 71/74] fix: characterization plots accept lists of x data

---
 qiskit/ignis/characterization/fitters.py             | 6 +++---
 qiskit/ignis/characterization/hamiltonian/fitters.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 4ff9330..5170ed9 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -538,7 +538,7 @@ class IQFitter(BaseFitter):
                     self._ydata[series][qind]['std'],
                     marker='.', markersize=9,
                     c='b', linestyle='')
-        ax.plot(self._xdata, self._fit_fun(self._xdata,
+        ax.plot(self._xdata, self._fit_fun(np.asarray(self._xdata),
                                            *self._params[series][qind]),
                 c='r', linestyle='--',
                 label='Q%d' % (self._qubits[qind]))
@@ -666,7 +666,7 @@ class BaseCoherenceFitter(BaseFitter):
         ax.errorbar(self._xdata, self._ydata[series][qind]['mean'],
                     self._ydata[series][qind]['std'],
                     marker='.', markersize=9, c='b', linestyle='')
-        ax.plot(self._xdata, self._fit_fun(self._xdata,
+        ax.plot(self._xdata, self._fit_fun(np.asarray(self._xdata),
                                            *self._params[series][qind]),
                 c='r', linestyle='--',
                 label=self._description + ': ' +
@@ -736,7 +736,7 @@ class BaseGateFitter(BaseFitter):
                     self._ydata[series][qind]['std'],
                     marker='.', markersize=9,
                     c='b', linestyle='')
-        ax.plot(self._xdata, self._fit_fun(self._xdata,
+        ax.plot(self._xdata, self._fit_fun(np.asarray(self._xdata),
                                            *self._params[series][qind]),
                 c='r', linestyle='--',
                 label='Q%d' % (self._qubits[qind]))
diff --git a/qiskit/ignis/characterization/hamiltonian/fitters.py b/qiskit/ignis/characterization/hamiltonian/fitters.py
index 4742952..e8842c1 100644
--- a/qiskit/ignis/characterization/hamiltonian/fitters.py
+++ b/qiskit/ignis/characterization/hamiltonian/fitters.py
@@ -103,7 +103,7 @@ class ZZFitter(BaseCoherenceFitter):
                         self._ydata[series][qind]['std'],
                         marker='.', markersize=9,
                         c=pltc[seriesind], linestyle='')
-            ax.plot(self._xdata, self._fit_fun(self._xdata,
+            ax.plot(self._xdata, self._fit_fun(np.asarray(self._xdata),
                                                *self._params[series][qind]),
                     c=linec[seriesind], linestyle='--',
                     label='Q%d in state %s' %
-- 
2.43.0


From e0c910b49e5324274a5ab6fa68d170b707d25638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:45 +0000
Subject: [PATCH 72/74] fix: coherence plots label the fit with the time of the
 plotted series

---
 qiskit/ignis/characterization/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5170ed9..f6ab5b6 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -670,7 +670,7 @@ class BaseCoherenceFitter(BaseFitter):
                                            *self._params[series][qind]),
                 c='r', linestyle='--',
                 label=self._description + ': ' +
-                str(np.around(self.time(qid=qind), 1)) + ' ' + self._time_unit)
+                str(np.around(self.time(qid=qind, series=series), 1)) + ' ' + self._time_unit)
 
         ax.tick_params(axis='x', labelsize=14, labelrotation=70)
         ax.tick_params(axis='y', labelsize=14)
-- 
2.43.0


From 3acf10b0ca4d1121a3cd185d455808c839bb780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:45 +0000
Subject: [PATCH 73/74] fix: bars of plot_qv_trial are aligned when some
 outputs were not measured

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 51cf4b2..acc5ba9 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -359,7 +359,8 @@ class QVFitter:
         """
         circ_name = f"qv_depth_{depth}_trial_{trial_index}"
         ideal_data = self._all_output_prob_ideal[circ_name]
-        exp_data = self._circ_counts[circ_name]
+        # one bar per bit string, also for those which were not measured
+        exp_data = {bits: self._circ_counts[circ_name].get(bits, 0) for bits in ideal_data}
 
         if ax is None:
             fig, ax = plt.subplots(figsize=figsize)
-- 
2.43.0


From 5c7e535a815d2d8dd860f1074d995c9f5cde92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:21 +0000
Subject: [PATCH 74/74] fix: adding a gate to a gate set basis leaves the given
 dictionary of gates alone

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index 2cc4526..c08c75f 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -62,7 +62,7 @@ class GateSetBasis:
         """
         self.name = name
         self.gate_labels = list(gates.keys())
-        self.gates = gates
+        self.gates = dict(gates)
         self.gate_matrices = {name: np.real(self._gate_matrix(gate))
                               for (name, gate) in gates.items()}
         self.spam_labels = tuple(sorted(spam.keys()))
-- 
2.43.0

