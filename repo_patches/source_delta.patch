From 5b293fec345356935fdf46e68cbf830a927ba6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 01/65] fix: give distinct constants distinct parameter names
 (-1 and -2 shared one)

---
 qadence/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..e9f7f4f 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -289,8 +289,8 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            # name the value itself: hashes of distinct numbers collide, e.g. hash(-1) == hash(-2)
+            name = "fix_" + str(sympy_to_numeric(expr)).replace(".", "_")
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From ef0250fce64df07c72cc42573abec89bf21c6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 02/65] fix: constant scale of a parametric block in the
 pyqtorch conversion

---
 qadence/backends/pyqtorch/convert_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..d56f62b 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -88,7 +88,8 @@ def extract_parameter(block: ScaleBlock | ParametricBlock, config: Configuration
     Returns:
         str | Tensor: Parameter value or symbol.
     """
-    if not block.is_parametric:
+    # a ScaleBlock is also parametric when only the block being scaled is
+    if not block.is_parametric or block.parameters.parameter.is_number:
         tensor_val = tensor([block.parameters.parameter], dtype=complex64)
         return (
             tensor([block.parameters.parameter], dtype=float64)
-- 
2.43.0


From 1e456aea78a99b0ec148e34902c38db0c161a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 03/65] fix: batched scales and evolution times in
 block_to_tensor

---
 qadence/blocks/block_to_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..080cc67 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -416,14 +416,14 @@ def _block_to_tensor_embedded(
 
                 # calculate evolution matrix
                 (p,) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
                 gen_mat = block.generator.to(device)
 
                 # calculate evolution matrix
                 (p, _) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
 
                 # add missing identities on unused qubits
@@ -454,7 +454,7 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, ScaleBlock):
         (scale,) = _gate_parameters(block, values)
-        mat = scale * _block_to_tensor_embedded(
+        mat = scale.reshape(-1, 1, 1) * _block_to_tensor_embedded(
             block.block, values, qubit_support, endianness=endianness, device=device
         )
 
-- 
2.43.0


From 525ab8214e2b57a9e43dff1fb6715ac5f201e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 04/65] fix: do not merge Hamiltonian evolutions into
 single-qubit gate chains

---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index d56f62b..069c9be 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -74,7 +74,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, TimeEvolutionBlock, U)) for b in block])
     )
 
 
-- 
2.43.0


From 482d1e9a5a9ab1863dbfebef19b754c1aed77526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 05/65] fix: matrix of the adjoint T gate

---
 qadence/blocks/block_to_tensor.py | 2 +-
 qadence/operations/primitive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 080cc67..49b919e 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..0b94284 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -322,7 +322,7 @@ class TDagger(PrimitiveBlock):
     """The Hermitian adjoint/conjugate transpose of the T gate."""
 
     # FIXME: this gate is not support by any backend
-    name = "T_dagger"
+    name = OpName.TDAGGER
 
     def __init__(
         self,
-- 
2.43.0


From 1dca89c837fe521151524832d8b7c809195dc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 06/65] fix: adjoint of the U gate swaps its outer angles

---
 qadence/operations/parametric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..b8d5b5d 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -194,6 +195,12 @@ class U(ParametricBlock):
     def n_qubits(self) -> int:
         return 1
 
+    def dagger(self) -> U:
+        phi, theta, omega = (
+            -extract_original_param_entry(param) for param in self.parameters.expressions()
+        )
+        return U(self.qubit_support[0], omega, theta, phi, self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From 50b7ca63e4642d615b2f18f5b7faeec9c38823de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 07/65] fix: number of qubits of a matrix block is an integer
 covering its support

---
 qadence/blocks/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..26b886e 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -102,7 +102,7 @@ class MatrixBlock(PrimitiveBlock):
 
     @property
     def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
+        return int(max(self.qubit_support)) + 1
 
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
-- 
2.43.0


From 13e21194cbb6c281ae8fa452173a2c53ef07c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 08/65] fix: adjoints of matrix blocks, off-diagonal projectors
 and matrix-generated evolutions

---
 qadence/blocks/matrix.py        | 5 +++++
 qadence/operations/ham_evo.py   | 6 +++++-
 qadence/operations/primitive.py | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 26b886e..a0c1e18 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -104,6 +104,11 @@ class MatrixBlock(PrimitiveBlock):
     def n_qubits(self) -> int:
         return int(max(self.qubit_support)) + 1
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.mH, self.qubit_support, noise=self.noise, check_unitary=False
+        )
+
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..2225de4 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -202,7 +202,11 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        return HamEvo(
+            deepcopy(self.generator),
+            -extract_original_param_entry(p),
+            qubit_support=self.qubit_support,
+        )
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 0b94284..084a40a 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -142,6 +142,11 @@ class Projector(ProjectorBlock):
     ) -> None:
         super().__init__(ket=ket, bra=bra, qubit_support=qubit_support, noise=noise)
 
+    def dagger(self) -> Projector:
+        if self.ket == self.bra:
+            return self
+        return Projector(self.bra, self.ket, self.qubit_support, noise=self.noise)
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From 137392ee5213bb5cf3fbc386489a4ba8fb81527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 09/65] fix: matrices on unordered or non-contiguous qubits in
 block_to_tensor

---
 qadence/blocks/block_to_tensor.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 49b919e..c2d6857 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -80,9 +80,22 @@ def _fill_identities(
         or a tensor (2**n_qubits) if diag_only
     """
     full_qubit_support = tuple(sorted(full_qubit_support))
-    qubit_support = tuple(sorted(qubit_support))
     block_mat = block_mat.to(device)
     identity_mat = IMAT.to(device)
+    start = full_qubit_support.index(min(qubit_support))
+    contiguous = full_qubit_support[start : start + len(qubit_support)] == tuple(qubit_support)
+    if len(qubit_support) > 1 and not (contiguous and endianness == Endianness.BIG):
+        # fill with identities at the end and bring all qubits in the right order
+        order = (*qubit_support, *(q for q in full_qubit_support if q not in qubit_support))
+        for _ in order[len(qubit_support) :]:
+            block_mat = torch.kron(block_mat.contiguous(), identity_mat)
+        n = len(order)
+        perm = [order.index(q) for q in full_qubit_support]
+        if endianness == Endianness.LITTLE:
+            perm.reverse()
+        axes = (0, *(1 + p for p in perm), *(1 + n + p for p in perm))
+        mat = block_mat.reshape(-1, *([2] * (2 * n))).permute(axes)
+        return mat.reshape(-1, 2**n, 2**n)
     if diag_only:
         block_mat = torch.diag(block_mat.squeeze(0))
         identity_mat = torch.diag(identity_mat.squeeze(0))
-- 
2.43.0


From 4972ab0d1380246c3b06400a26a352bf3803b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 10/65] fix: endianness of composite diagonal observables

---
 qadence/blocks/block_to_tensor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c2d6857..1e64c72 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -296,16 +296,22 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             OPERATIONS_DICT[block.name],
-- 
2.43.0


From c141da509716f53275e5b818bff012fd70d0cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:49 +0000
Subject: [PATCH 11/65] fix: equality of sums and products counts repeated and
 nested blocks

---
 qadence/blocks/composite.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..95d3981 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -16,6 +16,17 @@ from .abstract import AbstractBlock
 from .primitive import ParametricBlock
 
 
+def _same_blocks(blocks: Tuple[AbstractBlock, ...], others: Tuple[AbstractBlock, ...]) -> bool:
+    """Check that two collections have the same blocks, each as often, in any order."""
+    remaining = list(others)
+    for b in blocks:
+        match = next((i for i, other in enumerate(remaining) if b == other), None)
+        if match is None:
+            return False
+        remaining.pop(match)
+    return not remaining
+
+
 class CompositeBlock(AbstractBlock):
     """Block which composes multiple blocks into one larger block (which can again be composed).
 
@@ -244,7 +255,7 @@ class KronBlock(CompositeBlock):
         if isinstance(other, KronBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
 
 
@@ -269,5 +280,5 @@ class AddBlock(CompositeBlock):
         if isinstance(other, AddBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
-- 
2.43.0


From 5d1afd866062ca19ad165f309cac8cca217fa537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:49 +0000
Subject: [PATCH 12/65] fix: equality of U gates, projectors and matrix blocks
 compares their content

---
 qadence/blocks/matrix.py    |  8 ++++++++
 qadence/blocks/primitive.py | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index a0c1e18..f522d02 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -104,6 +104,14 @@ class MatrixBlock(PrimitiveBlock):
     def n_qubits(self) -> int:
         return int(max(self.qubit_support)) + 1
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and torch.equal(
+            self.matrix, other.matrix  # type: ignore[attr-defined]
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.mH, self.qubit_support, noise=self.noise, check_unitary=False
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..cabf156 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -187,8 +187,11 @@ class ParametricBlock(PrimitiveBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
+            exprs, other_exprs = self.parameters.expressions(), other.parameters.expressions()
+            return (
+                self.qubit_support == other.qubit_support
+                and len(exprs) == len(other_exprs)
+                and all(e.equals(o) for e, o in zip(exprs, other_exprs))
             )
         return False
 
@@ -548,3 +551,11 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def __eq__(self, other: object) -> bool:
+        if not super().__eq__(other):
+            return False
+        return self.ket == other.ket and self.bra == other.bra  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
-- 
2.43.0


From b3e06e8bd263efb5667a9d8c3e55ba9b91dca9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:49 +0000
Subject: [PATCH 13/65] fix: equality of Hamiltonian evolutions compares their
 generators

---
 qadence/operations/ham_evo.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 2225de4..2ed21c0 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -200,6 +200,28 @@ class HamEvo(TimeEvolutionBlock):
 
         return n_qubits
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, AbstractBlock):
+            raise TypeError(f"Cant compare {type(self)} to {type(other)}")
+        if not isinstance(other, HamEvo):
+            return False
+        if isinstance(self.generator, Tensor) or isinstance(other.generator, Tensor):
+            same_generator = (
+                isinstance(self.generator, Tensor)
+                and isinstance(other.generator, Tensor)
+                and torch.equal(self.generator, other.generator)
+            )
+        else:
+            same_generator = self.generator == other.generator
+        return (
+            self.qubit_support == other.qubit_support
+            and same_generator
+            and bool(self.parameters.parameter.equals(other.parameters.parameter))
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
         return HamEvo(
-- 
2.43.0


From 8c9932177eefec669be2a5104cad24a0e8976866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:04 +0000
Subject: [PATCH 14/65] fix: blocks with different parameter expressions are
 not equal

---
 qadence/blocks/primitive.py   |  8 +++-----
 qadence/operations/ham_evo.py |  3 ++-
 qadence/parameters.py         | 12 ++++++++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index cabf156..3ccd57d 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -18,6 +18,7 @@ from qadence.parameters import (
     dagger_expression,
     evaluate,
     extract_original_param_entry,
+    same_expression,
     stringify,
 )
 from qadence.types import TParameter
@@ -191,7 +192,7 @@ class ParametricBlock(PrimitiveBlock):
             return (
                 self.qubit_support == other.qubit_support
                 and len(exprs) == len(other_exprs)
-                and all(e.equals(o) for e, o in zip(exprs, other_exprs))
+                and all(same_expression(e, o) for e, o in zip(exprs, other_exprs))
             )
         return False
 
@@ -298,10 +299,7 @@ class ScaleBlock(ParametricBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         elif isinstance(other, ScaleBlock):
-            return (
-                self.block == other.block
-                and self.parameters.parameter == other.parameters.parameter
-            )
+            return self.block == other.block and same_expression(self.scale, other.scale)
         return False
 
     def __contains__(self, other: object) -> bool:
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 2ed21c0..766997c 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -25,6 +25,7 @@ from qadence.parameters import (
     ParamMap,
     evaluate,
     extract_original_param_entry,
+    same_expression,
 )
 from qadence.types import LTSOrder, OpName, TGenerator, TParameter
 
@@ -216,7 +217,7 @@ class HamEvo(TimeEvolutionBlock):
         return (
             self.qubit_support == other.qubit_support
             and same_generator
-            and bool(self.parameters.parameter.equals(other.parameters.parameter))
+            and same_expression(self.parameters.parameter, other.parameters.parameter)
         )
 
     def __hash__(self) -> int:
diff --git a/qadence/parameters.py b/qadence/parameters.py
index e9f7f4f..49898f8 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -199,6 +199,18 @@ def extract_original_param_entry(
     return param if not param.is_number else evaluate(param)
 
 
+def same_expression(expr: Basic, other: Basic) -> bool:
+    """Check if two expressions are mathematically the same.
+
+    A plain `==` is not enough: a `Parameter` equals any expression containing it.
+    """
+    if isinstance(expr, Array) or isinstance(other, Array):
+        return bool(isinstance(expr, Array) and isinstance(other, Array) and expr == other)
+    if isinstance(expr, Symbol) != isinstance(other, Symbol):
+        return False
+    return bool(expr.equals(other))
+
+
 def heaviside_func(x: Tensor, _: Any) -> Tensor:
     with no_grad():
         res = heaviside(x, tensor(0.5))
-- 
2.43.0


From 826f86230feaf3f98813fbcd195ff602e332127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 15/65] fix: deserialization of the remaining digital gates

---
 qadence/blocks/primitive.py       | 18 +++++++-----------
 qadence/operations/control_ops.py | 14 ++++++++++++++
 qadence/operations/parametric.py  | 12 ++++++++++--
 qadence/operations/primitive.py   | 17 +++++++++++++++++
 4 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 3ccd57d..0c0ba2c 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -418,9 +418,7 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        return cls(*d["qubit_support"], NoiseHandler._from_dict(d.get("noise")))
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -479,14 +477,12 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
-        return block
+        *control, target = d["qubit_support"]
+        expr = ParamMap._from_dict(d["blocks"][0]["parameters"]).parameter
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        # only the multi-controlled gates take a tuple of control qubits
+        controls = tuple(control) if cls.name.startswith("MC") else control[0]
+        return cls(controls, target, expr, noise)  # type: ignore[call-arg, arg-type]
 
     @property
     def _block_title(self) -> str:
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..bda4c21 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -70,6 +70,11 @@ class MCZ(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], Z(target) - I(target))
         super().__init__(control, Z(target), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> MCZ:
+        *control, target = d["qubit_support"]
+        return MCZ(tuple(control), target, NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
@@ -99,6 +104,10 @@ class CZ(MCZ):
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> CZ:
+        return cls(*d["qubit_support"], NoiseHandler._from_dict(d.get("noise")))
+
 
 class MCRX(ParametricControlBlock):
     name = OpName.MCRX
@@ -334,6 +343,11 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> Toffoli:
+        *control, target = d["qubit_support"]
+        return cls(tuple(control), target, NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def n_qubits(self) -> int:
         return len(self.qubit_support)
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index b8d5b5d..56c09d2 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -37,10 +37,12 @@ class PHASE(ParametricBlock):
     def __init__(
         self,
         target: int,
-        parameter: Parameter | TNumber | sympy.Expr | str,
+        parameter: Parameter | TNumber | sympy.Expr | str | ParamMap,
         noise: NoiseHandler | None = None,
     ) -> None:
-        self.parameters = ParamMap(parameter=parameter)
+        self.parameters = (
+            parameter if isinstance(parameter, ParamMap) else ParamMap(parameter=parameter)
+        )
         self.generator = I(target) - Z(target)
         super().__init__((target,), noise=noise)
 
@@ -195,6 +197,12 @@ class U(ParametricBlock):
     def n_qubits(self) -> int:
         return 1
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> U:
+        params = ParamMap._from_dict(d["parameters"])
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["qubit_support"][0], params.phi, params.theta, params.omega, noise)
+
     def dagger(self) -> U:
         phi, theta, omega = (
             -extract_original_param_entry(param) for param in self.parameters.expressions()
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 084a40a..11a3173 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -142,6 +142,14 @@ class Projector(ProjectorBlock):
     ) -> None:
         super().__init__(ket=ket, bra=bra, qubit_support=qubit_support, noise=noise)
 
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> Projector:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["ket"], d["bra"], tuple(d["qubit_support"]), noise)
+
     def dagger(self) -> Projector:
         if self.ket == self.bra:
             return self
@@ -169,6 +177,11 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["qubit_support"][0], d["ket"], noise)
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
@@ -261,6 +274,10 @@ class Zero(PrimitiveBlock):
         self.generator = 0 * I(0)
         super().__init__((0,))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> Zero:
+        return cls()
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.zeros(2, dtype=cdouble)
-- 
2.43.0


From 77083daf8ae92a013316bcfa4f3dd2e10b760a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 16/65] fix: serialization of Hamiltonian evolutions and matrix
 blocks

---
 qadence/blocks/matrix.py      | 19 +++++++++++++++++++
 qadence/operations/analog.py  |  5 +++++
 qadence/operations/ham_evo.py | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index f522d02..91b139b 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -104,6 +104,25 @@ class MatrixBlock(PrimitiveBlock):
     def n_qubits(self) -> int:
         return int(max(self.qubit_support)) + 1
 
+    def _to_dict(self) -> dict:
+        matrix = self.matrix.to(torch.cdouble)
+        return {
+            **super()._to_dict(),
+            "matrix": {"real": matrix.real.tolist(), "imag": matrix.imag.tolist()},
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        real, imag = (
+            torch.tensor(d["matrix"][part], dtype=torch.double) for part in ("real", "imag")
+        )
+        return cls(
+            torch.complex(real, imag),
+            tuple(d["qubit_support"]),
+            NoiseHandler._from_dict(d.get("noise")),
+            check_unitary=False,
+        )
+
     def __eq__(self, other: object) -> bool:
         return super().__eq__(other) and torch.equal(
             self.matrix, other.matrix  # type: ignore[attr-defined]
diff --git a/qadence/operations/analog.py b/qadence/operations/analog.py
index 8e66a11..d6e6d0f 100644
--- a/qadence/operations/analog.py
+++ b/qadence/operations/analog.py
@@ -55,6 +55,11 @@ class AnalogSWAP(HamEvo):
         )
         super().__init__(rydberg_ising_hamiltonian_generator, parameter, (control, target))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> AnalogSWAP:
+        params = ParamMap._from_dict(d["parameters"])
+        return cls(*d["qubit_support"], params.parameter)
+
 
 def _cast(T: Any, val: Any) -> Any:
     return val if isinstance(val, T) else T(val)
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 766997c..8584958 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -201,6 +201,40 @@ class HamEvo(TimeEvolutionBlock):
 
         return n_qubits
 
+    def _to_dict(self) -> dict:
+        d = super()._to_dict()
+        if isinstance(self.generator, AbstractBlock):
+            d["generator"] = self.generator._to_dict()
+        elif isinstance(self.generator, Tensor):
+            d["generator"] = {
+                "real": self.generator.real.tolist(),
+                "imag": self.generator.imag.tolist() if self.generator.is_complex() else None,
+            }
+        else:
+            raise NotImplementedError(f"Cannot serialize generator of type {type(self.generator)}.")
+        if self.duration is not None or len(self.noise_operators) > 0:
+            raise NotImplementedError("Cannot serialize time-dependent or noisy evolutions.")
+        # the parameters of the generator are serialized along with it
+        names = d["parameters"]["_name_dict"]
+        d["parameters"] = {"_name_dict": {"parameter": names["parameter"]}}
+        return d
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        from qadence.serialization import deserialize
+
+        generator = d["generator"]
+        if "real" in generator:
+            real = torch.tensor(generator["real"], dtype=torch.double)
+            imag = generator["imag"]
+            generator = (
+                real if imag is None else torch.complex(real, torch.tensor(imag, dtype=torch.double))
+            )
+        else:
+            generator = deserialize(generator)
+        params = ParamMap._from_dict(d["parameters"])
+        return HamEvo(generator, params.parameter, tuple(d["qubit_support"]))
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
-- 
2.43.0


From b633c825caf337ed22ea311ba4e2a739fc883332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 17/65] fix: keep the tags of nested blocks when deserializing

---
 qadence/blocks/composite.py | 13 +++----------
 qadence/blocks/primitive.py | 13 ++++---------
 qadence/circuit.py          | 16 +++-------------
 3 files changed, 10 insertions(+), 32 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 95d3981..d81e17b 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -135,18 +135,11 @@ class CompositeBlock(AbstractBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> CompositeBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
         from qadence.blocks.utils import _construct, tag
+        from qadence.serialization import deserialize
 
-        blocks = [
-            (
-                getattr(operations, b["type"])._from_dict(b)
-                if hasattr(operations, b["type"])
-                else getattr(qadenceblocks, b["type"])._from_dict(b)
-            )
-            for b in d["blocks"]
-        ]
+        # deserialize also restores the tags of the blocks
+        blocks = [deserialize(b) for b in d["blocks"]]
         block = _construct(cls, blocks)  # type: ignore[arg-type]
         if d["tag"] is not None:
             tag(block, d["tag"])
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 0c0ba2c..e28d339 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -334,17 +334,12 @@ class ScaleBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ScaleBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
+        from qadence.serialization import deserialize
 
         expr = ParamMap._from_dict(d["parameters"])
-        block: AbstractBlock
-        if hasattr(operations, d["block"]["type"]):
-            block = getattr(operations, d["block"]["type"])._from_dict(d["block"])
-
-        else:
-            block = getattr(qadenceblocks, d["block"]["type"])._from_dict(d["block"])
-        return cls(block, expr)  # type: ignore[arg-type]
+        # deserialize also restores the tag of the block
+        block: AbstractBlock = deserialize(d["block"])  # type: ignore[assignment]
+        return cls(block, expr)
 
 
 class TimeEvolutionBlock(ParametricBlock):
diff --git a/qadence/circuit.py b/qadence/circuit.py
index fd266fe..367414c 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -176,19 +176,9 @@ class QuantumCircuit:
 
     @classmethod
     def _from_dict(cls, d: dict) -> QuantumCircuit:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
-        RootBlock = (
-            getattr(operations, d["block"]["type"])
-            if hasattr(operations, d["block"]["type"])
-            else getattr(qadenceblocks, d["block"]["type"])
-        )
-
-        return QuantumCircuit(
-            Register._from_dict(d["register"]),
-            RootBlock._from_dict(d["block"]),
-        )
+        from qadence.serialization import deserialize
+
+        return QuantumCircuit(Register._from_dict(d["register"]), deserialize(d["block"]))
 
     @classmethod
     def _from_json(cls, path: str | Path) -> QuantumCircuit:
-- 
2.43.0


From 2b1154a73c7b3772b24487678424a720fe338c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 18/65] fix: rebuild measurement and mitigation protocols with
 their options

---
 qadence/measurements/protocols.py | 2 +-
 qadence/mitigations/protocols.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..d3d0bad 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From 13175f079e8ca4741b69b433fe531a7df752bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 19/65] fix: noise handlers of different length are not equal

---
 qadence/noise/protocols.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..b523d3e 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,9 +126,7 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
-            options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
-            return protocols_equal and options_equal
+            return self.protocol == other.protocol and self.options == other.options
 
         return False
 
-- 
2.43.0


From 7bf7b9a13608dca83a9a8a29691745ad8c621c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 20/65] fix: keep the qubit coordinates when deserializing a
 register

---
 qadence/register.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..f22053a 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From 5ece093baaf9c17ccbdea66a6ff258d2298b70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 21/65] fix: keep the register when taking the adjoint of a
 circuit

---
 qadence/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index 367414c..efbe896 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -116,7 +116,7 @@ class QuantumCircuit:
 
     def dagger(self) -> QuantumCircuit:
         """Reverse the QuantumCircuit by calling dagger on the block."""
-        return QuantumCircuit(self.n_qubits, self.block.dagger())
+        return QuantumCircuit(self.register, self.block.dagger())
 
     def get_blocks_by_tag(self, tag: str) -> list[AbstractBlock]:
         """Extract one or more blocks using the human-readable tag.
-- 
2.43.0


From 04111d2bb18bd8bee12a72a882766d3674f88002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 22/65] fix: number of qubits of gates which do not start at
 qubit 0

---
 qadence/blocks/primitive.py       |  4 ----
 qadence/operations/control_ops.py | 24 ++++++++++--------------
 qadence/operations/ham_evo.py     |  3 +--
 qadence/operations/parametric.py  |  4 ----
 qadence/operations/primitive.py   |  8 --------
 5 files changed, 11 insertions(+), 32 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index e28d339..60afd4d 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -450,10 +450,6 @@ class ParametricControlBlock(ParametricBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         raise NotImplementedError
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index bda4c21..e655c9c 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -77,11 +77,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor([-2], dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor([-1], dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -128,13 +128,13 @@ class MCRX(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRX(MCRX):
@@ -171,13 +171,13 @@ class MCRY(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRY(MCRY):
@@ -210,13 +210,13 @@ class MCRZ(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRZ(MCRZ):
@@ -254,13 +254,13 @@ class MCPHASE(ParametricControlBlock):
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat(
-            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_qubits - 2)))
+            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_supports - 2)))
         )
 
     @property
     def eigenvalues(self) -> Tensor:
         v = evaluate(self.parameters.parameter, as_torch=True)
-        return torch.cat((torch.ones(2**self.n_qubits - 1), torch.exp(1j * v)))
+        return torch.cat((torch.ones(2**self.n_supports - 1), torch.exp(1j * v)))
 
     def __rich_tree__(self, tree: Tree = None) -> Tree:
         if tree is None:
@@ -348,10 +348,6 @@ class Toffoli(ControlBlock):
         *control, target = d["qubit_support"]
         return cls(tuple(control), target, NoiseHandler._from_dict(d.get("noise")))
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 8584958..bc0cf5b 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -195,7 +194,7 @@ class HamEvo(TimeEvolutionBlock):
     @property
     def n_qubits(self) -> int:
         if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
+            n_qubits = max(self.qubit_support) + 1
         else:
             n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
 
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 56c09d2..8860174 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -193,10 +193,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     @classmethod
     def _from_dict(cls, d: dict) -> U:
         params = ParamMap._from_dict(d["parameters"])
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 11a3173..63bc73b 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -332,10 +332,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0])
 
@@ -362,10 +358,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0])
 
-- 
2.43.0


From 8cf2e9b32c16d27cee4e336724797680d84e24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 23/65] fix: digital decomposition of Pauli strings with gaps,
 identities or number operators

---
 qadence/decompose.py | 45 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..a35dafa 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -102,28 +102,55 @@ def lie_trotter_suzuki(
             return (2 * outer + inner + outer * 2) * t_steps
 
 
+def _pauli_words(block: AbstractBlock, scale: Any) -> list[tuple[list[AbstractBlock], Any]]:
+    """Write a product of Paulis and number operators N = (I - Z) / 2 in X, Y and Z only."""
+
+    # import here due to circular import issue
+    from qadence.operations import I, N, Z
+
+    words: list[tuple[list[AbstractBlock], Any]] = [([], scale)]
+    for b in get_pauli_blocks(block):
+        if isinstance(b, N):
+            z = Z(b.qubit_support[0])
+            words = flatten([[(w, s / 2.0), ([*w, z], -s / 2.0)] for w, s in words])
+        elif not isinstance(b, I):
+            words = [([*w, b], s) for w, s in words]
+    return [(_cancel_squares(w), s) for w, s in words]
+
+
+def _cancel_squares(word: list[AbstractBlock]) -> list[AbstractBlock]:
+    """Drop pairs of equal Paulis on the same qubit, since they square to the identity."""
+    out: list[AbstractBlock] = []
+    for b in word:
+        if b in out:
+            out.remove(b)
+        else:
+            out.append(b)
+    return out
+
+
 def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) -> list[AbstractBlock]:
     """A simple function to do decompositions of Pauli exponential operators into digital gates."""
 
     # import here due to circular import issue
-    from qadence.operations import CNOT, RZ
+    from qadence.operations import CNOT, PHASE, RZ, X
 
     blocks = []
+    qubit = min(q for bl, _ in block_list for q in bl.qubit_support) if block_list else 0
 
-    for bl, scale in block_list:
-        # extract Pauli operations and raise an error in case
-        # a non-Pauli operation is found since it cannot be
-        # decomposed
-        n_blocks = len(get_pauli_blocks(bl))
+    for blist, scale in flatten([_pauli_words(bl, scale) for bl, scale in block_list]):
+        if len(blist) == 0:
+            # a word of identities is the global phase exp(-i * parameter * scale)
+            blocks.extend([PHASE(qubit, Parameter(-parameter * scale)), X(qubit)] * 2)
+            continue
 
         # ensure that we keep the parameter as trainable
         fact = 2.0 * parameter * scale
 
-        blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
+        indx = sorted(b.qubit_support[0] for b in blist)
         ztarget = max(indx)
 
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
+        cnot_sequence = [CNOT(i, j) for i, j in zip(indx, indx[1:])]
         basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
         rot = [RZ(parameter=Parameter(fact), target=ztarget)]
         basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
-- 
2.43.0


From 1a943d20d62f4cbab71f453bf92ae093fc0d1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 24/65] fix: reversed half step of the second order
 Suzuki-Trotter formula

---
 qadence/decompose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index a35dafa..088654b 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -91,7 +91,9 @@ def lie_trotter_suzuki(
         if order == Order.ST2:  # Suzuki-Trotter 2nd order
             outer = decompose_pauli_exp(block_list[:-1], Parameter(t_delta / 2.0))
             inner = decompose_pauli_exp([block_list[-1]], Parameter(t_delta))
-            return (outer + inner + list(reversed(outer))) * t_steps
+            # the terms are applied in reversed order, not the gates of each term
+            outer_rev = decompose_pauli_exp(block_list[-2::-1], Parameter(t_delta / 2.0))
+            return (outer + inner + outer_rev) * t_steps
 
         else:  # Suzuki-Trotter 4th order
             p2 = (4 - 4 ** (1 / 3)) ** -1  # minimises the 'ideal' error in the recursive formula
-- 
2.43.0


From 7ee6d8a812e9b54d36eda4fbb2c6d5ae23d33663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 25/65] fix: imaginary factors in parametric scales of the
 pyqtorch conversion

---
 qadence/backends/pyqtorch/convert_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 069c9be..999486f 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -144,6 +144,8 @@ def sympy_to_pyq(expr: sympy.Expr) -> ConcretizedCallable | Tensor:
     """
 
     # base case - independent argument
+    if expr == sympy.I:
+        return torch.as_tensor(1j, dtype=cdouble)
     if len(expr.args) == 0:
         try:
             res = torch.as_tensor(float(expr))
-- 
2.43.0


From 2d82c735a8ccc9251fb28c48d30657e199aa2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:11 +0000
Subject: [PATCH 26/65] fix: block_to_tensor of evolutions with parametric
 generators

---
 qadence/blocks/block_to_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 1e64c72..ddf8316 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -434,7 +434,8 @@ def _block_to_tensor_embedded(
                 )
 
                 # calculate evolution matrix
-                (p,) = _gate_parameters(block, values)
+                # the remaining parameters are those of the generator
+                p, *_ = _gate_parameters(block, values)
                 prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
-- 
2.43.0


From bf2c9a2b88f4a532103b9218e650eed0f8bbfc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:13 +0000
Subject: [PATCH 27/65] fix: run a list of circuits

---
 qadence/execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..32f8a45 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -105,7 +105,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
     results = ()
     for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
+        results += (run(c, **kwargs),)  # type:ignore[assignment]
     return concat(results, dim=0)
 
 
-- 
2.43.0


From b23c14502036b51af99ce9dddf74c8dc060c6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 28/65] fix: shape of the adjoint expectation of several
 observables

---
 qadence/engines/torch/differentiable_expectation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..392bc63 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -162,7 +162,7 @@ class DifferentiableExpectation:
             )  # we expect (batch_size, n_observables) shape
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
-- 
2.43.0


From 1a919fe79f7b715a69a3f1f2c20bba4db99ec65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 29/65] fix: expectation of observables of which only some have
 batched parameters

---
 qadence/backends/pyqtorch/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..46e8336 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -204,9 +204,12 @@ class Backend(BackendInterface):
             unpyqify_state=False,
         )
         observable = observable if isinstance(observable, list) else [observable]
-        _expectation = torch.hstack(
-            [obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable]
-        )
+        expvals = [
+            obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable
+        ]
+        # only some of the observables may depend on batched parameters
+        batch_size = max(ev.shape[0] for ev in expvals)
+        _expectation = torch.hstack([ev.expand(batch_size, 1) for ev in expvals])
         return _expectation
 
     def _looped_expectation(
-- 
2.43.0


From 3bef3d6297f6de726373801cf095a68971e7eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:16 +0000
Subject: [PATCH 30/65] fix: GPSR of evolutions generated by scaled number
 operators

---
 qadence/blocks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 1759b9a..7e0abcd 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -299,7 +299,7 @@ def uuid_to_eigen(
         try:
             eigs_generator = b.eigenvalues_generator
         except ValueError:
-            result[uuid] = (torch.zeros(2), 1.0)
+            result[uuid] = (torch.zeros(2, dtype=torch.cdouble), 1.0)
         else:
             if eigs_generator is not None:
                 if eigs_generator.numel() > 0:
-- 
2.43.0


From 0dbc5d3b80c1d583136d7f2cefdb5a674b4dcbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:47 +0000
Subject: [PATCH 31/65] fix: move the generator when reassigning the qubits of
 an evolution

---
 qadence/transpile/invert.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..c3efddb 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -19,7 +19,13 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
         block (AbstractBlock): _description_
         qubit_map (dict[int, int]): _description_
     """
-    from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
+    from qadence.blocks import (
+        CompositeBlock,
+        ControlBlock,
+        ParametricControlBlock,
+        ScaleBlock,
+        TimeEvolutionBlock,
+    )
     from qadence.blocks.utils import _construct
 
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
@@ -42,6 +48,14 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
         else:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
+            if isinstance(block, TimeEvolutionBlock):
+                # the generator carries its own qubits
+                if isinstance(block.generator, AbstractBlock):
+                    blk.generator = _block_with_updated_support(block.generator)
+                    qs = tuple(sorted(qs))
+                blk.noise_operators = [  # type: ignore[attr-defined]
+                    _block_with_updated_support(op) for op in block.noise_operators
+                ]
             blk._qubit_support = qs  # type: ignore[attr-defined]
             return blk
 
-- 
2.43.0


From 8c0a40bb197e1d269ac6a13e6c8b15f39a26c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:47 +0000
Subject: [PATCH 32/65] fix: keep the register when transpiling circuits

---
 qadence/transpile/circuit.py    | 2 +-
 qadence/transpile/digitalize.py | 2 +-
 qadence/transpile/flatten.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/transpile/circuit.py b/qadence/transpile/circuit.py
index ee1829c..22df840 100644
--- a/qadence/transpile/circuit.py
+++ b/qadence/transpile/circuit.py
@@ -9,5 +9,5 @@ def fill_identities(circ: QuantumCircuit) -> QuantumCircuit:
     empty_wires = set(range(circ.n_qubits)) - set(circ.block.qubit_support)
     if len(empty_wires) > 0:
         ids = chain(I(i) for i in empty_wires)
-        return QuantumCircuit(circ.n_qubits, chain(circ.block, ids))
+        return QuantumCircuit(circ.register, chain(circ.block, ids))
     return circ
diff --git a/qadence/transpile/digitalize.py b/qadence/transpile/digitalize.py
index 12eed3e..e87f667 100644
--- a/qadence/transpile/digitalize.py
+++ b/qadence/transpile/digitalize.py
@@ -41,4 +41,4 @@ def _(block: AbstractBlock, approximation: LTSOrder = LTSOrder.BASIC) -> Abstrac
 
 @digitalize.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, approximation: LTSOrder = LTSOrder.BASIC) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, digitalize(circuit.block, approximation))
+    return QuantumCircuit(circuit.register, digitalize(circuit.block, approximation))
diff --git a/qadence/transpile/flatten.py b/qadence/transpile/flatten.py
index 863f845..5acaf6e 100644
--- a/qadence/transpile/flatten.py
+++ b/qadence/transpile/flatten.py
@@ -105,4 +105,4 @@ def _(block: AbstractBlock, types: list = [ChainBlock, KronBlock, AddBlock]) ->
 
 @flatten.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, types: list = [ChainBlock, KronBlock, AddBlock]) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, flatten(circuit.block, types=types))
+    return QuantumCircuit(circuit.register, flatten(circuit.block, types=types))
-- 
2.43.0


From fe3f95f6fd817e88db5a35b0654f594f4dffe01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:16 +0000
Subject: [PATCH 33/65] fix: keep the value of parameters when copying or
 unpickling them

---
 qadence/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 49898f8..f159dd4 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -152,6 +152,10 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __getstate__(self) -> dict:
+        # `sympy.Symbol` only restores its (boolean) assumptions when copying or unpickling
+        return {"trainable": self.trainable, "value": self.value, "is_time": self.is_time}
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
-- 
2.43.0


From 0f051eca2bae2bf1809f3e1f50d67b2c65907c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:58 +0000
Subject: [PATCH 34/65] fix: fill_identities of products whose factors
 interleave

---
 qadence/transpile/block.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 26fce48..0ee02cd 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -333,15 +333,21 @@ def _fill_kron(block: KronBlock, start: int, stop: int) -> list[AbstractBlock]:
 
     def append_ids(block: AbstractBlock, total: int) -> AbstractBlock:
         qs = block.qubit_support
-        ids = [I(i) for i in range(min(qs), max(qs)) for _ in range(length(block), total)]
+        ids = [I(i) for i in qs if i != max(qs) for _ in range(length(block), total)]
         bs = [block] + ids
         return chain(*bs)
 
     def id_chain(i: int, max_len: int) -> AbstractBlock:
         return chain(I(i) for _ in range(max_len))
 
+    def fill_subblock(b: AbstractBlock) -> AbstractBlock:
+        lo, hi = min(b.qubit_support), max(b.qubit_support)
+        others = set(block.qubit_support) - set(b.qubit_support)
+        # the qubits in between may be used by the other subblocks
+        return b if others & set(range(lo, hi + 1)) else fill_identities(b, lo, hi)
+
     # fill subblocks with identities
-    bs = [fill_identities(b, min(b.qubit_support), max(b.qubit_support)) for b in block]
+    bs = [fill_subblock(b) for b in block]
 
     # make all subblocks equally "long" horizontally
     max_len = length(bs)
-- 
2.43.0


From 016cfebb65e1cb681e3c72e87bc57ed5f0193857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:58 +0000
Subject: [PATCH 35/65] fix: fill_identities does not remove the tags of the
 blocks it is given

---
 qadence/transpile/block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 0ee02cd..9abe614 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from logging import getLogger
 from functools import singledispatch
 from typing import Callable, Iterable, Type
@@ -293,6 +293,7 @@ def _(block: PrimitiveBlock, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)
     block.tag = None
     bs = [block] + [I(i) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
@@ -306,6 +307,7 @@ def _(block: SWAP, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)
     block.tag = None
     bs = [block] + [chain(I(i), I(i)) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
-- 
2.43.0


From b4b2e46d817b501c1496d5f9bb8b9d3038ac264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:32 +0000
Subject: [PATCH 36/65] fix: adjoint of blocks scaled by parameters

---
 qadence/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index f159dd4..1d1c88e 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -9,7 +9,6 @@ import numpy as np
 import sympy
 from sympy import *
 from sympy import Array, Basic, Expr, Symbol, sympify
-from sympy.physics.quantum.dagger import Dagger
 from sympytorch import SymPyModule as torchSympyModule
 from torch import Tensor, heaviside, no_grad, rand, tensor
 
@@ -20,7 +19,11 @@ __all__ = ["FeatureParameter", "Parameter", "VariationalParameter", "ParamMap",
 
 logger = getLogger(__name__)
 
-dagger_expression = Dagger
+
+def dagger_expression(expr: Basic) -> Basic:
+    """The complex conjugate of a scalar expression, whose parameters take real values."""
+    return expr.xreplace({sympy.I: -sympy.I})
+
 
 ParameterJSONSchema = {
     "$schema": "http://json-schema.org/draft-07/schema#",
-- 
2.43.0


From 8b238316b1e7c28a3218d44609ab6adb45768ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 37/65] fix: deserialize models without an observable

---
 qadence/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..82832a9 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -516,7 +516,7 @@ class QuantumModel(nn.Module):
                 observable=(
                     None
                     if not isinstance(qm_dict["observable"], list)
-                    else [deserialize(q_obs) for q_obs in qm_dict["observable"]]  # type: ignore[misc]
+                    else [deserialize(q_obs) for q_obs in qm_dict["observable"] if q_obs] or None  # type: ignore[misc]
                 ),
                 backend=qm_dict["backend"],
                 diff_mode=qm_dict["diff_mode"],
-- 
2.43.0


From 0b3c13ddbeb3fe0e93d43e86c59d2254811322d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 38/65] fix: constants of a loaded model do not become
 trainable

---
 qadence/ml_tools/models.py | 2 +-
 qadence/model.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..f1c9a99 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -492,7 +492,7 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index 82832a9..7be078b 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -529,7 +529,7 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
-- 
2.43.0


From f4e8eecf11812518013f9907e5f67a8410cd038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 39/65] fix: load the saved parameter values of models

---
 qadence/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..27e1422 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -478,4 +478,5 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    # models come with the values of their parameters in some formats
+    return deserialize(d, as_torch=bool(d.get("param_dict")))
-- 
2.43.0


From c65a43c630d10e3c9b91edb0156363ae253c7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 40/65] fix: QNN expectation of a given observable

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index f1c9a99..9bbb182 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
             endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 55d982074ed52f2510af862008efb36d5becf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:16 +0000
Subject: [PATCH 41/65] fix: keep the parameter values when fixing or freeing
 some of them

---
 qadence/model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index 7be078b..0c8223d 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -229,6 +229,7 @@ class QuantumModel(nn.Module):
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
         self._observable = conv.observable
+        previous_params = self.params
         if check_param_dict_values(conv.params):
             self._params = nn.ParameterDict(
                 {
@@ -244,6 +245,8 @@ class QuantumModel(nn.Module):
                 }
             )
 
+        self._keep_values(previous_params)
+
     def set_as_fixed(self, params: list[str] = list()) -> None:
         """Set as fixed the list of names in `params`.
 
@@ -266,6 +269,7 @@ class QuantumModel(nn.Module):
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
         self._observable = conv.observable
+        previous_params = self.params
         if check_param_dict_values(conv.params):
             self._params = nn.ParameterDict(
                 {
@@ -281,6 +285,14 @@ class QuantumModel(nn.Module):
                 }
             )
 
+        self._keep_values(previous_params)
+
+    def _keep_values(self, previous_params: OrderedDict) -> None:
+        """Give the parameters the values they had before the model was converted again."""
+        for key, val in self._params.items():
+            if key in previous_params:
+                val.data = previous_params[key]
+
     def circuit(self, circuit: QuantumCircuit) -> ConvertedCircuit:
         """Get backend-converted circuit.
 
-- 
2.43.0


From a974d5584f9ff35c4c2c9d6d3aa32da429dbe289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:11 +0000
Subject: [PATCH 42/65] fix: parameters set as fixed stay fixed when
 deserializing

---
 qadence/serialization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 27e1422..c9ee69b 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -211,6 +211,7 @@ class ExpressionSerialization(SerializationModel):
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
                     s.value = float(self.d["symbols"][s.name]["value"])
+                    s.trainable = self.d["symbols"][s.name]["trainable"] == "True"
             self.value = expr
         else:
             raise ValueError(f"Invalid expression: {self.d['expression']}")
-- 
2.43.0


From b969ada7d64310cf14f90101567be99d037cd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:44 +0000
Subject: [PATCH 43/65] fix: deserializing a device does not change the
 dictionary it is given

---
 qadence/analog/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
-- 
2.43.0


From be8976dd21b1a8caada78a91769750b39ea00c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:31 +0000
Subject: [PATCH 44/65] fix: deserialize expressions with constants (I, pi, E)
 and numbers in scientific notation

---
 qadence/serial_expr_grammar.peg | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..d398954 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,11 +1,12 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
 args = (value / expr) (',' (value / expr))*
-value = int / float_str / str / pair
+value = int / float_str / str / pair / const
 pair = param '=' (int / bool / str)
 param = r"[a-z][a-zA-Z]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
+const = r"(pi|I|E)\b(?!\()"
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
+float_str = r"'-?(0|\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?'"
 str = r"'[a-zA-Z0-9\_\.]+'"
-- 
2.43.0


From 0d5d0bbe3c3669411145801fc84b9c5435700de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:45 +0000
Subject: [PATCH 45/65] fix: expressions are deserialized with sympy and
 parameter classes only

---
 qadence/serialization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index c9ee69b..86e55d7 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -81,6 +81,11 @@ def _parser_fn() -> ParserPEG:
 
 _parsing_serialize_expr = _parser_fn()
 
+# The only names a serialized expression may use: no builtins or functions with side effects.
+_EXPRESSION_NAMES = {
+    n: obj for n, obj in globals().items() if isinstance(obj, type) and issubclass(obj, core.Basic)
+} | {"I": I, "pi": pi, "E": E}
+
 
 def parse_expr_fn(code: str) -> bool:
     """
@@ -207,7 +212,10 @@ class ExpressionSerialization(SerializationModel):
 
     def __post_init__(self) -> None:
         if parse_expr_fn(self.d["expression"]):
-            expr = eval(self.d["expression"])
+            try:
+                expr = eval(self.d["expression"], {"__builtins__": {}}, _EXPRESSION_NAMES)
+            except NameError as e:
+                raise ValueError(f"Invalid expression: {self.d['expression']}") from e
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
                     s.value = float(self.d["symbols"][s.name]["value"])
-- 
2.43.0


From 6a9602eae00704591c1edd6a2fd1696878251ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:41 +0000
Subject: [PATCH 46/65] fix: test with the default test data and its number of
 batches

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0


From 021efb217a69b9db1cbc88a0875808d240ff157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:41 +0000
Subject: [PATCH 47/65] fix: cosine annealing starts from the initial learning
 rate

---
 qadence/ml_tools/callbacks/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..bc766a1 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,7 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From cd9e8c2ad994d7af2499b6ca062d730fda6062cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:08 +0000
Subject: [PATCH 48/65] fix: evaluate substitutes parameters, not the
 expressions that contain them

---
 qadence/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 1d1c88e..f01892d 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -297,7 +297,8 @@ def evaluate(expr: Expr, values: dict | None = None, as_torch: bool = False) ->
         if as_torch:
             res_value = make_differentiable(expr)(**{s.name: tensor(v) for s, v in query.items()})
         else:
-            res = expr.subs(query)
+            # `subs` compares subexpressions, and a `Parameter` equals any expression containing it
+            res = expr.xreplace({s: sympify(v) for s, v in query.items()})
             res_value = sympy_to_numeric(res)
         return res_value
 
-- 
2.43.0


From 9a4a749573f4a59186246b0df24959f15f185b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 49/65] fix: the adjoints of S and T keep the noise of the gate

---
 qadence/operations/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 63bc73b..8f57476 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -217,7 +217,7 @@ class S(PrimitiveBlock):
         return tensor([1, 1j], dtype=cdouble)
 
     def dagger(self) -> SDagger:
-        return SDagger(self.qubit_support[0])
+        return SDagger(self.qubit_support[0], noise=self.noise)
 
 
 class SDagger(PrimitiveBlock):
@@ -242,7 +242,7 @@ class SDagger(PrimitiveBlock):
         return tensor([1, -1j], dtype=cdouble)
 
     def dagger(self) -> S:
-        return S(self.qubit_support[0])
+        return S(self.qubit_support[0], noise=self.noise)
 
 
 class H(PrimitiveBlock):
@@ -333,7 +333,7 @@ class T(PrimitiveBlock):
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
     def dagger(self) -> TDagger:
-        return TDagger(self.qubit_support[0])
+        return TDagger(self.qubit_support[0], noise=self.noise)
 
 
 class TDagger(PrimitiveBlock):
@@ -359,7 +359,7 @@ class TDagger(PrimitiveBlock):
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
     def dagger(self) -> T:
-        return T(self.qubit_support[0])
+        return T(self.qubit_support[0], noise=self.noise)
 
 
 class SWAP(PrimitiveBlock):
-- 
2.43.0


From 74b594288acfddc74629b7cbb41519b97c172ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 50/65] fix: inverting the bit order of a density matrix
 permutes rows and columns

---
 qadence/transpile/invert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index c3efddb..b1ba07b 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -6,6 +6,7 @@ from functools import singledispatch
 from typing import Any, overload
 
 import numpy as np
+from pyqtorch.utils import DensityMatrix
 from torch import Tensor, tensor
 
 from qadence.blocks import AbstractBlock
@@ -109,10 +110,11 @@ def _(block: AbstractBlock, n_qubits: int = None, in_place: bool = False) -> Abs
 @invert_endianness.register(Tensor)  # type: ignore[attr-defined]
 def _(wf: Tensor) -> Tensor:
     """
-    Inverts the endianness of a wave function.
+    Inverts the endianness of a wave function or a density matrix.
 
     Args:
         wf (Tensor): the target wf as a torch Tensor of shape batch_size X 2**n_qubits
+            or a DensityMatrix of shape batch_size X 2**n_qubits X 2**n_qubits.
 
     Returns:
         The inverted wave function.
@@ -120,6 +122,8 @@ def _(wf: Tensor) -> Tensor:
     n_qubits = int(np.log2(wf.shape[1]))
     ls = list(range(2**n_qubits))
     permute_ind = tensor([int(f"{num:0{n_qubits}b}"[::-1], 2) for num in ls])
+    if isinstance(wf, DensityMatrix):
+        return wf[:, permute_ind][:, :, permute_ind]
     return wf[:, permute_ind]
 
 
-- 
2.43.0


From e25ae0992c40fbcb5715c49da5e01942902b1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 51/65] fix: convert N and the bare identity between blocks and
 openfermion operators

---
 qadence/blocks/manipulate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/manipulate.py b/qadence/blocks/manipulate.py
index cf73b15..423067e 100644
--- a/qadence/blocks/manipulate.py
+++ b/qadence/blocks/manipulate.py
@@ -27,6 +27,11 @@ def _(block: operations.I) -> QubitOperator:
     return QubitOperator("")
 
 
+@to_openfermion.register
+def _(block: operations.N) -> QubitOperator:
+    return QubitOperator("", 0.5) - QubitOperator(f"Z{block.qubit_support[0]}", 0.5)
+
+
 @to_openfermion.register
 def _(block: CompositeBlock) -> QubitOperator:
     return reduce(lambda x, y: x * y, [to_openfermion(b) for b in block.blocks])
@@ -70,7 +75,7 @@ def from_openfermion(op: QubitOperator) -> AbstractBlock:
     @_convert.register
     def _(op: tuple) -> AbstractBlock:
         if len(op) == 0:
-            return operations.I(n_qubits - 1)
+            return operations.I(max(n_qubits - 1, 0))
         bs = [_convert_gate(gate) for gate in op]
         return kron(*bs) if len(bs) > 1 else bs[0]  # type: ignore [no-any-return]
 
-- 
2.43.0


From 7d951e1a75e9f448cb1ca0ca7cfa9fd028bb82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 52/65] fix: measurement protocols estimate every Pauli
 observable, whatever its form and the bit order

---
 qadence/measurements/shadow.py     |  8 +++----
 qadence/measurements/tomography.py |  7 +++---
 qadence/measurements/utils.py      | 34 ++++++++++++++++++++++++------
 3 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..c0d9918 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,7 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
+from qadence.measurements.utils import get_pauli_decomposition, get_qubit_indices_for_op
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
@@ -144,7 +144,6 @@ def classical_shadow(
             circuit=conv_circ,
             param_values=param_values,
             state=state,
-            endianness=endianness,
         )
         all_rotations = [
             QuantumCircuit(circuit.n_qubits, rots) if rots else QuantumCircuit(circuit.n_qubits)
@@ -161,7 +160,7 @@ def classical_shadow(
         ]
 
     for i in range(shadow_size):
-        # Reverse endianness to get sample bitstrings in ILO.
+        # The rotations and the observables refer to the big-endian order of the samples.
         conv_circ = backend.circuit(all_rotations[i])
         batch_samples = backend.sample(
             circuit=conv_circ,
@@ -169,7 +168,6 @@ def classical_shadow(
             n_shots=1,
             state=initial_state,
             noise=noise,
-            endianness=endianness,
         )
         shadow.append(batch_samples)
     bitstrings = list()
@@ -259,7 +257,7 @@ def estimations(
     )
     estimations = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        pauli_decomposition = get_pauli_decomposition(observable)
         batch_estimations = []
         for batch in batch_shadow_samples:
             pauli_term_estimations = []
diff --git a/qadence/measurements/tomography.py b/qadence/measurements/tomography.py
index f7398de..7df389c 100644
--- a/qadence/measurements/tomography.py
+++ b/qadence/measurements/tomography.py
@@ -6,10 +6,9 @@ from torch import Tensor
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import iterate_pauli_decomposition
+from qadence.measurements.utils import get_pauli_decomposition, iterate_pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.utils import Endianness
 
@@ -53,7 +52,7 @@ def compute_expectation(
         raise KeyError("Tomography protocol requires a 'n_shots' kwarg of type 'int'.")
     estimated_values = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        pauli_decomposition = get_pauli_decomposition(observable)
         estimated_values.append(
             iterate_pauli_decomposition(
                 circuit=circuit,
@@ -66,4 +65,4 @@ def compute_expectation(
                 endianness=endianness,
             )
         )
-    return torch.transpose(torch.vstack(estimated_values), 1, 0)
+    return torch.transpose(torch.vstack(torch.broadcast_tensors(*estimated_values)), 1, 0)
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..be1ad88 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -6,20 +6,40 @@ from typing import Dict, List, Tuple
 
 import numpy as np
 import torch
-from sympy import Basic
+from sympy import Basic, sympify
 from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
-from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
+from qadence.blocks import AbstractBlock, PrimitiveBlock, chain, kron
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y
+from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.parameters import evaluate
 from qadence.utils import Endianness
 
 
+def get_pauli_decomposition(observable: AbstractBlock) -> List[Tuple[AbstractBlock, Basic]]:
+    """Write an observable as a sum of scaled Pauli words.
+
+    Args:
+        observable: The observable, any combination of Pauli operators and N
+            by sums, products, tensor products and scaling.
+
+    Returns: A list of Pauli words without identities (or a single identity) and their scales.
+    """
+    # avoid a circular import
+    from qadence.blocks.manipulate import to_openfermion
+
+    paulis = {"X": X, "Y": Y, "Z": Z}
+    terms = to_openfermion(observable).terms or {(): 0.0}
+    return [
+        (kron(*(paulis[p](i) for i, p in word)) if word else I(0), sympify(np.real(coef)))
+        for word, coef in terms.items()
+    ]
+
+
 def get_qubit_indices_for_op(
     pauli_term: Tuple[AbstractBlock, Basic], op: PrimitiveBlock | None = None
 ) -> List[int]:
@@ -141,7 +161,7 @@ def iterate_pauli_decomposition(
         state: Initial state.
         backend: A backend for circuit execution.
         noise: A noise model to use.
-        endianness: Endianness of the resulting bit strings.
+        endianness: Endianness of the observable estimate, which does not depend on it.
 
     Returns: A torch.Tensor of bit strings n_shots x n_qubits.
     """
@@ -150,7 +170,7 @@ def iterate_pauli_decomposition(
 
     for pauli_term in pauli_decomposition:
         if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
+            estimated_values.append(torch.tensor([evaluate(pauli_term[1])]))
         else:
             # Get the full qubit support for the Pauli term.
             # Note: duplicates must be kept here to allow for
@@ -163,18 +183,18 @@ def iterate_pauli_decomposition(
             # already performed at the higher QuantumModel level.
             # Therefore, parameters passed here have already been embedded.
             conv_circ = backend.circuit(rotated_circuit)
+            # The indices in the support refer to the big-endian order of the samples.
             samples = backend.sample(
                 circuit=conv_circ,
                 param_values=param_values,
                 n_shots=n_shots,
                 state=state,
                 noise=noise,
-                endianness=endianness,
             )
             estim_values = empirical_average(samples=samples, support=support)
             # TODO: support for parametric observables to be tested
             estimated_values.append(estim_values * evaluate(pauli_term[1]))
-    res = torch.sum(torch.stack(estimated_values), axis=0)
+    res = torch.sum(torch.stack(torch.broadcast_tensors(*estimated_values)), axis=0)
     # Allow for automatic differentiation.
     res.requires_grad = True
     return res
-- 
2.43.0


From b064d24af3e1071ff8beaab1ec5a779630f38bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:13 +0000
Subject: [PATCH 53/65] fix: readout mitigation acts before the bit order of
 the samples is reversed

---
 qadence/backends/pyqtorch/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 46e8336..b5c9cf9 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -303,14 +303,14 @@ class Backend(BackendInterface):
         samples: list[Counter] = circuit.native.sample(
             state=state, values=param_values, n_shots=n_shots
         )
-        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         if mitigation is not None:
             logger.warning(
                 "Mitigation protocol is deprecated. Use qadence-protocols instead.",
             )
             assert noise
             samples = apply_mitigation(noise=noise, mitigation=mitigation, samples=samples)
-        return samples
+        # the mitigation corrects the readout of the qubits in the native order
+        return invert_endianness(samples) if endianness != Endianness.BIG else samples
 
     def assign_parameters(self, circuit: ConvertedCircuit, param_values: ParamDictType) -> Any:
         raise NotImplementedError
-- 
2.43.0


From b48fcc9169a5bed9addc6dd9fa175611a6f91eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:13 +0000
Subject: [PATCH 54/65] fix: readout mitigation with correlated readout or
 error probabilities

---
 qadence/mitigations/readout.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..e6c2557 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -95,10 +95,13 @@ def mitigation_minimization(
     if readout_noise is None:
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
     n_shots = sum(samples[0].values())
-    noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
+    if getattr(readout_noise, "_compute_confusion", False):
+        # only the probabilities of an error were given
         readout_noise.create_noise_matrix(n_shots)
-        noise_matrices = readout_noise.confusion_matrix
+    noise_matrices = readout_noise.confusion_matrix
+    if noise_matrices.ndim == 2:
+        # correlated readout: the confusion matrix of the whole register
+        noise_matrices = noise_matrices.unsqueeze(0)
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
 
     corrected_counters: list[Counter] = []
-- 
2.43.0


From 4e0b4aa713d021bd1e0fc82b8ff1fca7d18c3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:13 +0000
Subject: [PATCH 55/65] fix: expectation values from samples account for
 identities and scaled factors

---
 qadence/measurements/samples.py | 5 ++---
 qadence/measurements/utils.py   | 4 +++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/measurements/samples.py b/qadence/measurements/samples.py
index 02275c6..016025b 100644
--- a/qadence/measurements/samples.py
+++ b/qadence/measurements/samples.py
@@ -6,8 +6,7 @@ from typing import List
 from torch import Tensor
 
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
-from qadence.measurements.utils import pauli_z_expectation
+from qadence.measurements.utils import get_pauli_decomposition, pauli_z_expectation
 
 
 def compute_expectation(
@@ -30,9 +29,9 @@ def compute_expectation(
     expectation_vals = []
 
     for obs in observable:
-        decomposition = unroll_block_with_scaling(obs)
         if not obs._is_diag_pauli or obs.is_identity:
             raise TypeError("observable provided is not in the Z basis")
+        decomposition = get_pauli_decomposition(obs)
         expectation_vals.append(pauli_z_expectation(decomposition, samples))
 
     return expectation_vals
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index be1ad88..51a202d 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -113,7 +113,9 @@ def pauli_z_expectation(
 
     estimated_values = []
     for pauli_term in pauli_decomposition:
-        support = get_qubit_indices_for_op(pauli_term)
+        # the identity does not depend on any qubit
+        is_identity = pauli_term[0].is_identity
+        support = [] if is_identity else get_qubit_indices_for_op(pauli_term)
         estim_values = empirical_average(samples=samples, support=support)
         # TODO: support for parametric observables to be tested
         estimated_values.append(estim_values * evaluate(pauli_term[1]))
-- 
2.43.0


From 90c4637a5e19984eee4711844415f66c3947bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 56/65] fix: a register does not move the nodes of the graph it
 is given

---
 qadence/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index f22053a..72c4fe6 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -70,7 +70,7 @@ class Register:
 
         self.device_specs = device_specs
 
-        self.graph = support if isinstance(support, nx.Graph) else alltoall_graph(support)
+        self.graph = deepcopy(support) if isinstance(support, nx.Graph) else alltoall_graph(support)
 
         if spacing is not None and self.min_distance != 0.0:
             _scale_node_positions(self.graph, self.min_distance, spacing)
-- 
2.43.0


From 96fd7bc33b16f23383cd803e502f493a123a472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:38 +0000
Subject: [PATCH 57/65] fix: local analog interactions next to each other
 evolve freely

---
 qadence/analog/parse_analog.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..1f11730 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -82,6 +82,17 @@ def _build_rot_ham_evo(
     return HamEvo(h_block, duration / 1000)
 
 
+def _build_int_ham_evo(
+    block: InteractionBlock,
+    h_int: AbstractBlock,
+    h_addr: AbstractBlock | None,
+) -> HamEvo:
+    h_block = h_int
+    if block.add_pattern and h_addr is not None:
+        h_block += h_addr
+    return HamEvo(h_block, block.parameters.duration / 1000)
+
+
 def _analog_to_hevo(
     block: AbstractBlock, register: Register, h_int: AbstractBlock, h_addr: AbstractBlock | None
 ) -> AbstractBlock:
@@ -92,11 +103,7 @@ def _analog_to_hevo(
     """
 
     if isinstance(block, InteractionBlock):
-        h_background = h_int
-        if block.add_pattern and h_addr is not None:
-            h_background += h_addr
-        duration = block.parameters.duration
-        return HamEvo(h_background, duration / 1000)
+        return _build_int_ham_evo(block, h_int, h_addr)
 
     if isinstance(block, ConstantAnalogRotation):
         h_drive = rydberg_drive_hamiltonian(block, register)
@@ -114,7 +121,8 @@ def _analog_to_hevo(
                 h_drive = rydberg_drive_hamiltonian(block, register)
                 ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            # Only interactions: all the qubits evolve freely for their common duration.
+            ops.append(_build_int_ham_evo(block, h_int, h_addr))
         return chain(*ops)
 
     return block
-- 
2.43.0


From 81f4eb8d8b9538255ace6335dc2d68f01cbb897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:31 +0000
Subject: [PATCH 58/65] fix: overlaps of circuits with at most one feature
 parameter, for every method

---
 qadence/overlap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..1735758 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -397,7 +397,12 @@ class Overlap(QuantumModel):
 
         elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
-                param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                if self.method in [OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON]:
+                    param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                else:
+                    # bra and ket are parts of the same circuits
+                    all_param_values = {**ket_param_values, **bra_param_values}
+                    param_values = {"bra": all_param_values, "ket": all_param_values}
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
 
-- 
2.43.0


From 260b3f21b30750309330499ecd6ab66194acd745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:31 +0000
Subject: [PATCH 59/65] fix: Jensen-Shannon overlap of a single state with a
 batch of states

---
 qadence/overlap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 1735758..bb87a8f 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -181,6 +181,10 @@ def overlap_jensen_shannon(bras: list[Counter], kets: list[Counter]) -> Tensor:
     Returns:
         Tensor: overlap tensor containing values of overlap of each bra with each ket
     """
+    # a single distribution is compared with every one of the others
+    n_max = max(len(bras), len(kets))
+    bras = bras * n_max if len(bras) == 1 else bras
+    kets = kets * n_max if len(kets) == 1 else kets
     return 1 - torch.tensor([js_divergence(p, q) for p, q in zip(bras, kets)])
 
 
-- 
2.43.0


From af39cc4b9cdd810aba99058f47603138bdd5b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:54 +0000
Subject: [PATCH 60/65] fix: comparing scaled blocks by factors that contain
 parameters

---
 qadence/parameters.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index f01892d..f529189 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -215,7 +215,15 @@ def same_expression(expr: Basic, other: Basic) -> bool:
         return bool(isinstance(expr, Array) and isinstance(other, Array) and expr == other)
     if isinstance(expr, Symbol) != isinstance(other, Symbol):
         return False
-    return bool(expr.equals(other))
+    if isinstance(expr, Symbol):
+        return bool(expr.equals(other))
+    return bool(_plain_expression(expr).equals(_plain_expression(other)))
+
+
+def _plain_expression(expr: Basic) -> Basic:
+    """The expression in ordinary symbols, which are equal to themselves only."""
+    symbols = expr.free_symbols
+    return expr.xreplace({s: Symbol(f"{s.name}_{getattr(s, 'trainable', None)}") for s in symbols})
 
 
 def heaviside_func(x: Tensor, _: Any) -> Tensor:
-- 
2.43.0


From 44ae5888cfce0b0f2368ec1be24a419ef614aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:40 +0000
Subject: [PATCH 61/65] fix: digital decomposition of products that contain
 factors or sums

---
 qadence/decompose.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index 088654b..0165592 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -7,8 +7,8 @@ from typing import Any, List, Tuple, Union
 
 import sympy
 
-from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
+from qadence.blocks import AbstractBlock, AddBlock, CompositeBlock, ScaleBlock
+from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.parameters import Parameter, evaluate
 
 # from qadence.types import TNumber, TParameter
@@ -105,18 +105,27 @@ def lie_trotter_suzuki(
 
 
 def _pauli_words(block: AbstractBlock, scale: Any) -> list[tuple[list[AbstractBlock], Any]]:
-    """Write a product of Paulis and number operators N = (I - Z) / 2 in X, Y and Z only."""
+    """Write a block of Paulis and number operators N = (I - Z) / 2 in words of X, Y and Z.
+
+    Scales and sums nested within products are expanded.
+    """
 
     # import here due to circular import issue
     from qadence.operations import I, N, Z
 
+    if isinstance(block, ScaleBlock):
+        return _pauli_words(block.block, scale * block.scale)
+    if isinstance(block, AddBlock):
+        return flatten([_pauli_words(b, scale) for b in block.blocks])
+    if isinstance(block, N):
+        return [([], scale / 2.0), ([Z(block.qubit_support[0])], -scale / 2.0)]
+    if not isinstance(block, CompositeBlock):
+        return [([] if isinstance(block, I) else [block], scale)]
+
     words: list[tuple[list[AbstractBlock], Any]] = [([], scale)]
-    for b in get_pauli_blocks(block):
-        if isinstance(b, N):
-            z = Z(b.qubit_support[0])
-            words = flatten([[(w, s / 2.0), ([*w, z], -s / 2.0)] for w, s in words])
-        elif not isinstance(b, I):
-            words = [([*w, b], s) for w, s in words]
+    for b in block.blocks:
+        factors = _pauli_words(b, 1.0)
+        words = [(w1 + w2, s1 * s2) for w1, s1 in words for w2, s2 in factors]
     return [(_cancel_squares(w), s) for w, s in words]
 
 
-- 
2.43.0


From d7139c70693d79674bd4297b92db4aa33f647171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 62/65] fix: registers with other edges or another device are
 not equal

---
 qadence/register.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index 72c4fe6..9046360 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -355,8 +355,9 @@ class Register:
             return False
         return (
             DeepDiff(self.coords, other.coords, ignore_order=False) == {}
-            and nx.is_isomorphic(self.graph, other.graph)
+            and set(map(frozenset, self.graph.edges)) == set(map(frozenset, other.graph.edges))
             and self.n_qubits == other.n_qubits
+            and self.device_specs == other.device_specs
         )
 
 
-- 
2.43.0


From 00229c5403ba87f6c304f77624b004b1e8c44610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 63/65] fix: honour depth, operations and block size of
 configured ALAs

The ALA built from an AnsatzConfig always had one layer and the default
operations, and could not be interleaved in a feature map with reuploads.
---
 qadence/ml_tools/constructors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
@@ -612,12 +613,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From 14a2bee2591d6219febcf6fe6d0d2e8a3cc0a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 64/65] fix: default generator of a configured SDAQC
 identity-initialised ansatz

The documented default is the NN interaction; CNOT is not a generator.
---
 qadence/ml_tools/constructors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..ce05f59 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,9 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    entangler = config.strategy_args.get(
+        "entangler", hamiltonian_factory(num_qubits, interaction=Interaction.NN)
+    )
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From faf8de0ed239cd65413eb21e279845ebd1a927a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 65/65] fix: let the operation of a feature map config take
 precedence over its strategy

The operation is a gate class or a callable, never an instance of a block, so
the documented precedence had no effect and the construction failed later.
---
 qadence/ml_tools/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/config.py b/qadence/ml_tools/config.py
index 985375b..9b4fd87 100644
--- a/qadence/ml_tools/config.py
+++ b/qadence/ml_tools/config.py
@@ -403,8 +403,12 @@ class FeatureMapConfig:
                 self.operation = AnalogRX  # type: ignore[assignment]
 
         else:
+            # digital operations are gate classes, analog ones any callable returning a block
+            is_digital = isinstance(self.operation, type) and issubclass(
+                self.operation, ParametricBlock
+            )
             if self.feature_map_strategy == Strategy.DIGITAL:
-                if isinstance(self.operation, AnalogBlock):
+                if not is_digital:
                     logger.warning(
                         "The `operation` is of type `AnalogBlock` but the `feature_map_strategy` is\
                         `Strategy.DIGITAL`. The `feature_map_strategy` will be modified and given \
@@ -414,7 +418,7 @@ class FeatureMapConfig:
                     self.feature_map_strategy = Strategy.ANALOG
 
             elif self.feature_map_strategy == Strategy.ANALOG:
-                if isinstance(self.operation, ParametricBlock):
+                if is_digital:
                     logger.warning(
                         "The `operation` is a digital gate but the `feature_map_strategy` is\
                         `Strategy.ANALOG`. The `feature_map_strategy` will be modified and given\
@@ -431,7 +435,7 @@ class FeatureMapConfig:
                         `feature_map_strategy` will be modified and given operation will be used."
                     )
 
-                    if isinstance(self.operation, AnalogBlock):
+                    if not is_digital:
                         self.feature_map_strategy = Strategy.ANALOG
                     else:
                         self.feature_map_strategy = Strategy.DIGITAL
-- 
2.43.0

