From 48e6548d688a908aa96bf2535d755662b4c77751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:01 +0000
Subject: [PATCH 001/131] fix: block_to_tensor broadcast batched scale and
 evolution-time values over matrix columns instead of the batch

---
 qadence/blocks/block_to_tensor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..d254043 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -264,6 +264,11 @@ def _gate_parameters(b: AbstractBlock, values: dict[str, torch.Tensor]) -> tuple
     return tuple(values[k] for k in ks)
 
 
+def _batched(p: torch.Tensor) -> torch.Tensor:
+    """Reshape a batch of scalars such that it broadcasts over a batch of matrices."""
+    return p.reshape(-1, 1, 1)
+
+
 def block_to_diagonal(
     block: AbstractBlock,
     values: dict[str, TNumber | torch.Tensor] = dict(),
@@ -416,14 +421,14 @@ def _block_to_tensor_embedded(
 
                 # calculate evolution matrix
                 (p,) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                prefac = -J.to(device) * _batched(p)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
                 gen_mat = block.generator.to(device)
 
                 # calculate evolution matrix
                 (p, _) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                prefac = -J.to(device) * _batched(p)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
 
                 # add missing identities on unused qubits
@@ -454,7 +459,7 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, ScaleBlock):
         (scale,) = _gate_parameters(block, values)
-        mat = scale * _block_to_tensor_embedded(
+        mat = _batched(scale) * _block_to_tensor_embedded(
             block.block, values, qubit_support, endianness=endianness, device=device
         )
 
-- 
2.43.0


From 8866fa79eed9eb60254b5467950f56a97e945512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:01 +0000
Subject: [PATCH 002/131] fix: block_to_tensor misplaced multi-qubit matrices,
 projectors and matrix evolutions on unsorted or non-adjacent qubits

---
 qadence/blocks/block_to_tensor.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index d254043..17735eb 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -80,9 +80,26 @@ def _fill_identities(
         or a tensor (2**n_qubits) if diag_only
     """
     full_qubit_support = tuple(sorted(full_qubit_support))
-    qubit_support = tuple(sorted(qubit_support))
+    qubit_support = tuple(qubit_support)
     block_mat = block_mat.to(device)
     identity_mat = IMAT.to(device)
+    if len(qubit_support) > 1:
+        # multi-qubit matrix: fill at the end, then move every qubit to its position
+        n_rest = len(full_qubit_support) - len(qubit_support)
+        identities = torch.eye(2**n_rest, dtype=block_mat.dtype, device=device)
+        mat = torch.kron(block_mat.contiguous(), identities)
+        rest = tuple(q for q in full_qubit_support if q not in qubit_support)
+        order = (*qubit_support, *rest)
+        perm = [order.index(q) for q in full_qubit_support]
+        if endianness == Endianness.LITTLE:
+            perm = perm[::-1]
+        n_full, batch_dims = len(full_qubit_support), tuple(mat.shape[:-2])
+        axes = list(range(len(batch_dims)))
+        axes += [len(batch_dims) + p for p in perm]
+        axes += [len(batch_dims) + n_full + p for p in perm]
+        shape = mat.shape
+        mat = mat.reshape(batch_dims + (2,) * (2 * n_full)).permute(axes).reshape(shape)
+        return torch.diag(mat.squeeze(0)) if diag_only else mat
     if diag_only:
         block_mat = torch.diag(block_mat.squeeze(0))
         identity_mat = torch.diag(identity_mat.squeeze(0))
-- 
2.43.0


From 43ce7e5d071dc48611c372c253596a572ca5e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:01 +0000
Subject: [PATCH 003/131] fix: the number operator of the 0 state was treated
 as the one of the 1 state in matrices and simulation

---
 qadence/backends/pyqtorch/convert_ops.py |  2 ++
 qadence/blocks/block_to_tensor.py        | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..63e3e73 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -280,6 +280,8 @@ def convert_block(
             return [pyq.Sequence(ops)]  # for kron and chain
     elif isinstance(block, tuple(non_unitary_gateset)):
         if isinstance(block, ProjectorBlock):
+            if block.name == OpName.N and block.ket == "0":
+                return [pyq.Projector(qubit_support, ket="0", bra="0", noise=noise)]
             projector = getattr(pyq, block.name)
             if block.name == OpName.N:
                 return [projector(target=qubit_support, noise=noise)]
diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 17735eb..5aafae2 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -20,7 +20,7 @@ from qadence.blocks.utils import chain, kron, uuid_to_expression
 from qadence.parameters import evaluate, stringify
 
 # from qadence.states import product_state
-from qadence.types import PI, Endianness, TensorType, TNumber
+from qadence.types import PI, Endianness, OpName, TensorType, TNumber
 
 J = torch.tensor(1j)
 
@@ -281,6 +281,14 @@ def _gate_parameters(b: AbstractBlock, values: dict[str, torch.Tensor]) -> tuple
     return tuple(values[k] for k in ks)
 
 
+def _operation_matrix(block: AbstractBlock) -> torch.Tensor:
+    mat = OPERATIONS_DICT[block.name]
+    # number operator counting the "0" state
+    if block.name == OpName.N and getattr(block, "ket", "1") == "0":
+        return IMAT - mat
+    return mat
+
+
 def _batched(p: torch.Tensor) -> torch.Tensor:
     """Reshape a batch of scalars such that it broadcasts over a batch of matrices."""
     return p.reshape(-1, 1, 1)
@@ -317,7 +325,7 @@ def block_to_diagonal(
         v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
-            OPERATIONS_DICT[block.name],
+            _operation_matrix(block),
             block.qubit_support,
             qubit_support,  # type: ignore [arg-type]
             diag_only=True,
@@ -504,7 +512,7 @@ def _block_to_tensor_embedded(
         )
 
     elif block.name in OPERATIONS_DICT.keys():
-        block_mat = OPERATIONS_DICT[block.name]
+        block_mat = _operation_matrix(block)
 
         # add missing identities on unused qubits
         mat = _fill_identities(
-- 
2.43.0


From 586f582293c51606f895368224cb616af0f979c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:01 +0000
Subject: [PATCH 004/131] fix: sparse diagonal matrices ignored the requested
 qubit support and endianness

---
 qadence/blocks/block_to_tensor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 5aafae2..082b698 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -313,16 +313,22 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             _operation_matrix(block),
@@ -385,7 +391,9 @@ def block_to_tensor(
         )
 
     elif tensor_type == TensorType.SPARSEDIAGONAL:
-        t = block_to_diagonal(block, values, endianness=endianness)
+        t = block_to_diagonal(
+            block, values, qubit_support, use_full_support, endianness=endianness, device=device
+        )
         indices, values, size = torch.nonzero(t), t[t != 0], len(t)
         indices = torch.stack((indices.flatten(), indices.flatten()))
         return torch.sparse_coo_tensor(indices, values, (size, size))
-- 
2.43.0


From 01aa728bfa52fdff4934379de8b80853b962968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:01 +0000
Subject: [PATCH 005/131] fix: the adjoint of the T gate had no matrix (and the
 tabulated one was the matrix of T)

---
 qadence/blocks/block_to_tensor.py | 2 +-
 qadence/operations/primitive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 082b698..788b6b0 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..0b94284 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -322,7 +322,7 @@ class TDagger(PrimitiveBlock):
     """The Hermitian adjoint/conjugate transpose of the T gate."""
 
     # FIXME: this gate is not support by any backend
-    name = "T_dagger"
+    name = OpName.TDAGGER
 
     def __init__(
         self,
-- 
2.43.0


From abea47867ed0f0fe43c1f653aa526e29cbc417d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 006/131] fix: dagger() of U, MatrixBlock, Projector and
 matrix-generated HamEvo was not the adjoint

U negated its angles without reversing the rotations, MatrixBlock and Projector
returned themselves, HamEvo over a tensor raised, S/T dropped the gate noise.
---
 qadence/blocks/matrix.py         |  5 +++++
 qadence/operations/ham_evo.py    |  8 +++++++-
 qadence/operations/parametric.py | 10 ++++++++++
 qadence/operations/primitive.py  | 14 ++++++++++----
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..6b4ba00 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -104,6 +104,11 @@ class MatrixBlock(PrimitiveBlock):
     def n_qubits(self) -> int:
         return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.t().conj(), self.qubit_support, noise=self.noise, check_unitary=False
+        )
+
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..ab6b6a9 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -202,7 +202,13 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        return HamEvo(
+            deepcopy(self.generator),
+            -extract_original_param_entry(p),
+            qubit_support=self.qubit_support,
+            duration=self.duration,
+            noise_operators=self.noise_operators,
+        )
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..1bf7812 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -194,6 +195,15 @@ class U(ParametricBlock):
     def n_qubits(self) -> int:
         return 1
 
+    def dagger(self) -> U:
+        # the adjoint of RZ(omega) RY(theta) RZ(phi) applies the inverse rotations
+        # in the opposite order
+        phi, theta, omega = (
+            -extract_original_param_entry(param)
+            for param in (self.parameters.phi, self.parameters.theta, self.parameters.omega)
+        )
+        return U(self.qubit_support[0], omega, theta, phi, self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 0b94284..55c4ed2 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -142,6 +142,9 @@ class Projector(ProjectorBlock):
     ) -> None:
         super().__init__(ket=ket, bra=bra, qubit_support=qubit_support, noise=noise)
 
+    def dagger(self) -> Projector:
+        return Projector(self.bra, self.ket, self.qubit_support, noise=self.noise)
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
@@ -164,6 +167,9 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    def dagger(self) -> N:
+        return self
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
@@ -199,7 +205,7 @@ class S(PrimitiveBlock):
         return tensor([1, 1j], dtype=cdouble)
 
     def dagger(self) -> SDagger:
-        return SDagger(self.qubit_support[0])
+        return SDagger(self.qubit_support[0], self.noise)
 
 
 class SDagger(PrimitiveBlock):
@@ -224,7 +230,7 @@ class SDagger(PrimitiveBlock):
         return tensor([1, -1j], dtype=cdouble)
 
     def dagger(self) -> S:
-        return S(self.qubit_support[0])
+        return S(self.qubit_support[0], self.noise)
 
 
 class H(PrimitiveBlock):
@@ -315,7 +321,7 @@ class T(PrimitiveBlock):
         return 1
 
     def dagger(self) -> TDagger:
-        return TDagger(self.qubit_support[0])
+        return TDagger(self.qubit_support[0], self.noise)
 
 
 class TDagger(PrimitiveBlock):
@@ -345,7 +351,7 @@ class TDagger(PrimitiveBlock):
         return 1
 
     def dagger(self) -> T:
-        return T(self.qubit_support[0])
+        return T(self.qubit_support[0], self.noise)
 
 
 class SWAP(PrimitiveBlock):
-- 
2.43.0


From 61bdd1354ffa4be56e38a275d0d51f1eed334ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 007/131] fix: n_qubits of T, U, controlled and matrix
 operations ignored the qubits they act on

They reported 1 or the size of their support (a float for MatrixBlock) although a block
on qubit N has at least N + 1 qubits, so circuits and matrices built from such a block
alone were too small.
---
 qadence/blocks/matrix.py          |  4 ----
 qadence/blocks/primitive.py       |  4 ----
 qadence/operations/control_ops.py | 24 ++++++++++--------------
 qadence/operations/ham_evo.py     |  3 +--
 qadence/operations/parametric.py  |  4 ----
 qadence/operations/primitive.py   |  8 --------
 6 files changed, 11 insertions(+), 36 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 6b4ba00..2eb73ca 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -100,10 +100,6 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
-    @property
-    def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
-
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj(), self.qubit_support, noise=self.noise, check_unitary=False
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..3746c8f 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -456,10 +456,6 @@ class ParametricControlBlock(ParametricBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         raise NotImplementedError
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..f4cc941 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -72,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_qubits - 1)))
+        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -119,13 +119,13 @@ class MCRX(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRX(MCRX):
@@ -162,13 +162,13 @@ class MCRY(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRY(MCRY):
@@ -201,13 +201,13 @@ class MCRZ(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRZ(MCRZ):
@@ -245,13 +245,13 @@ class MCPHASE(ParametricControlBlock):
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat(
-            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_qubits - 2)))
+            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_supports - 2)))
         )
 
     @property
     def eigenvalues(self) -> Tensor:
         v = evaluate(self.parameters.parameter, as_torch=True)
-        return torch.cat((torch.ones(2**self.n_qubits - 1), torch.exp(1j * v)))
+        return torch.cat((torch.ones(2**self.n_supports - 1), torch.exp(1j * v)))
 
     def __rich_tree__(self, tree: Tree = None) -> Tree:
         if tree is None:
@@ -334,10 +334,6 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index ab6b6a9..5445571 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -194,7 +193,7 @@ class HamEvo(TimeEvolutionBlock):
     @property
     def n_qubits(self) -> int:
         if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
+            n_qubits = max(self.qubit_support) + 1
         else:
             n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
 
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 1bf7812..5a4769d 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -191,10 +191,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> U:
         # the adjoint of RZ(omega) RY(theta) RZ(phi) applies the inverse rotations
         # in the opposite order
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 55c4ed2..608e994 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -316,10 +316,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0], self.noise)
 
@@ -346,10 +342,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0], self.noise)
 
-- 
2.43.0


From 7b78441b8c199992b12104eee274092709771150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 008/131] fix: constants -1 and -2 shared one parameter value,
 and negative scales of parametric blocks could not run

The name of a constant was its hash, and hash(-1) == hash(-2); the simulator also re-parsed the
string form of scale expressions, which fails for negative constants and for parameters named like
a sympy object (beta, gamma, E, ...).
---
 qadence/backends/pyqtorch/convert_ops.py | 44 +++---------------------
 qadence/parameters.py                    |  4 +--
 2 files changed, 6 insertions(+), 42 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 63e3e73..d2472a1 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import re
 from functools import partial, reduce
 from itertools import chain as flatten
 from typing import Any, Callable, Sequence
@@ -99,39 +98,6 @@ def extract_parameter(block: ScaleBlock | ParametricBlock, config: Configuration
     return config.get_param_name(block)[0]
 
 
-def replace_underscore_floats(s: str) -> str:
-    """Replace underscores with periods for all floats in given string.
-
-    Needed for correct parsing of string by sympy parser.
-
-    Args:
-        s (str): string expression
-
-    Returns:
-        str: transformed string expression
-    """
-
-    # Regular expression to match floats written with underscores instead of dots
-    float_with_underscore_pattern = r"""
-        (?<!\w)            # Negative lookbehind to ensure not part of a word
-        -?                 # Optional negative sign
-        \d+                # One or more digits (before underscore)
-        _                  # The underscore acting as decimal separator
-        \d+                # One or more digits (after underscore)
-        ([eE][-+]?\d+)?    # Optional exponent part for scientific notation
-        (?!\w)             # Negative lookahead to ensure not part of a word
-    """
-
-    # Function to replace the underscore with a dot
-    def underscore_to_dot(match: re.Match) -> Any:
-        return match.group(0).replace("_", ".")
-
-    # Compile the regular expression
-    pattern = re.compile(float_with_underscore_pattern, re.VERBOSE)
-
-    return pattern.sub(underscore_to_dot, s)
-
-
 def sympy_to_pyq(expr: sympy.Expr) -> ConcretizedCallable | Tensor:
     """Convert sympy expression to pyqtorch ConcretizedCallable object.
 
@@ -211,12 +177,10 @@ def convert_block(
         scaled_ops = convert_block(block.block, n_qubits, config)
         scale = extract_parameter(block, config=config)
 
-        # replace underscore by dot when underscore is between two numbers in string
-        if isinstance(scale, str):
-            scale = replace_underscore_floats(scale)
-
-        if isinstance(scale, str) and not config._use_gate_params:
-            param = sympy_to_pyq(sympy.parse_expr(scale))
+        # convert the expression itself rather than parsing its string form, in which
+        # parameter names can clash with sympy names (e.g. "beta" or "E")
+        if isinstance(scale, str) and not config._use_gate_params and not block.scale.is_number:
+            param = sympy_to_pyq(block.scale)
         else:
             param = scale
 
diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..4791011 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -289,8 +289,8 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            # not the hash of the number: hash(-1) == hash(-2)
+            name = "fix_" + str(sympy_to_numeric(expr)).replace(".", "_")
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From a16b960f4688b8747900c2a03b9d40dc7db80e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 009/131] fix: a chain of single-qubit evolutions could not be
 converted to the simulator

---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index d2472a1..54bebf9 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -73,7 +73,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, U, TimeEvolutionBlock)) for b in block])
     )
 
 
-- 
2.43.0


From e7705c2c1feff963731dc0837b37bf8a8e9c6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:44 +0000
Subject: [PATCH 010/131] fix: complex scale expressions of parameters could
 not run on the simulator

---
 qadence/backends/pyqtorch/convert_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 54bebf9..1521036 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -110,6 +110,8 @@ def sympy_to_pyq(expr: sympy.Expr) -> ConcretizedCallable | Tensor:
 
     # base case - independent argument
     if len(expr.args) == 0:
+        if expr is sympy.I:
+            return torch.as_tensor(1.0j)
         try:
             res = torch.as_tensor(float(expr))
         except Exception as e:
-- 
2.43.0


From 43fe3ecdc5ff6be96ca4e5b8354023f5c22d17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:18 +0000
Subject: [PATCH 011/131] fix: block_to_tensor rejected evolutions with a
 parametric generator

---
 qadence/blocks/block_to_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 788b6b0..a5569c3 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -453,7 +453,8 @@ def _block_to_tensor_embedded(
                 )
 
                 # calculate evolution matrix
-                (p,) = _gate_parameters(block, values)
+                # the parameters of the generator follow the time parameter
+                p = _gate_parameters(block, values)[0]
                 prefac = -J.to(device) * _batched(p)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
-- 
2.43.0


From ba0f3e964d786dfda3f0e5596c669d968c15f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:25 +0000
Subject: [PATCH 012/131] fix: copying or pickling a parameter changed its
 value, and the value of the original

---
 qadence/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 4791011..bf8a3df 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -152,6 +152,11 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __getstate__(self) -> dict:
+        # sympy rebuilds copies from the (boolean) assumptions and caches symbols by name,
+        # without this copying a parameter would overwrite its value
+        return {"trainable": self.trainable, "value": self.value, "is_time": self.is_time}
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
-- 
2.43.0


From 2ac9c03c3c3703b456f7ed145f7e2189bd5c2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 013/131] fix: dagger() of a block scaled by a parameter could
 not be evaluated

sympy's Dagger stays symbolic because parameters are not declared real.
---
 qadence/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index bf8a3df..60a447e 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -9,7 +9,6 @@ import numpy as np
 import sympy
 from sympy import *
 from sympy import Array, Basic, Expr, Symbol, sympify
-from sympy.physics.quantum.dagger import Dagger
 from sympytorch import SymPyModule as torchSympyModule
 from torch import Tensor, heaviside, no_grad, rand, tensor
 
@@ -20,7 +19,11 @@ __all__ = ["FeatureParameter", "Parameter", "VariationalParameter", "ParamMap",
 
 logger = getLogger(__name__)
 
-dagger_expression = Dagger
+
+def dagger_expression(expr: Basic) -> Basic:
+    """The complex conjugate of an expression, in which all parameters are real."""
+    return expr.xreplace({sympy.I: -sympy.I})
+
 
 ParameterJSONSchema = {
     "$schema": "http://json-schema.org/draft-07/schema#",
-- 
2.43.0


From 883407bf328b89a0914ad0f94cc2403c29964d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:22 +0000
Subject: [PATCH 014/131] fix: nested iteration over the same composite block
 stopped early

All iterators of a block shared one position.
---
 qadence/blocks/composite.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..257de81 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Tuple
+from typing import Iterator, Tuple
 
 import torch
 from rich.columns import Columns
@@ -55,12 +55,8 @@ class CompositeBlock(AbstractBlock):
     def depth(self) -> int:
         return 1 + max([b.depth for b in self.blocks])
 
-    def __iter__(self) -> CompositeBlock:
-        self._iterator = iter(self.blocks)
-        return self
-
-    def __next__(self) -> AbstractBlock:
-        return next(self._iterator)
+    def __iter__(self) -> Iterator[AbstractBlock]:
+        return iter(self.blocks)
 
     def __getitem__(self, item: int) -> AbstractBlock:
         return self.blocks[item]
-- 
2.43.0


From e5a1667bde61442b076cc2afbc70c52c6d67dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:55 +0000
Subject: [PATCH 015/131] fix: run() of a list of circuits always failed

---
 qadence/execution.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..7b3b025 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -103,10 +103,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 
 @run.register
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
-    results = ()
-    for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
-    return concat(results, dim=0)
+    return concat([run(c, **kwargs) for c in circs], dim=0)
 
 
 @singledispatch
-- 
2.43.0


From 7f9e3aace923f419b351da4fe63d033cb27915e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:10 +0000
Subject: [PATCH 016/131] fix: the size of a generator matrix was taken for the
 batch size

---
 qadence/backends/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/utils.py b/qadence/backends/utils.py
index 7da7692..c1c64ef 100644
--- a/qadence/backends/utils.py
+++ b/qadence/backends/utils.py
@@ -95,18 +95,28 @@ def count_bitstrings(sample: Tensor, endianness: Endianness = Endianness.BIG) ->
     )
 
 
+def _is_matrix(value: Tensor) -> bool:
+    """Generator matrices are passed along with the parameters, but are not a batch of values."""
+    return value.dim() > 1 and value.size(-1) > 1
+
+
 def to_list_of_dicts(param_values: ParamDictType) -> list[ParamDictType]:
     if not param_values:
         return [param_values]
 
-    max_batch_size = max(p.size()[0] for p in param_values.values() if isinstance(p, Tensor))
+    matrices = {k: v for k, v in param_values.items() if isinstance(v, Tensor) and _is_matrix(v)}
+    values = {
+        k: v for k, v in param_values.items() if isinstance(v, Tensor) and k not in matrices
+    }
+    max_batch_size = max((p.size()[0] for p in values.values()), default=1)
     batched_values = {
         k: (v if v.size()[0] == max_batch_size else v.repeat(max_batch_size, 1))
-        for k, v in param_values.items()
-        if isinstance(v, Tensor)
+        for k, v in values.items()
     }
 
-    return [{k: v[i] for k, v in batched_values.items()} for i in range(max_batch_size)]
+    return [
+        {**{k: v[i] for k, v in batched_values.items()}, **matrices} for i in range(max_batch_size)
+    ]
 
 
 def pyqify(state: Tensor, n_qubits: int = None) -> ArrayLike:
@@ -174,7 +184,7 @@ def infer_batchsize(param_values: dict[str, Tensor] = None) -> int:
                 [
                     len(tensor_or_dict)
                     for tensor_or_dict in param_values.values()
-                    if isinstance(tensor_or_dict, Tensor)
+                    if isinstance(tensor_or_dict, Tensor) and not _is_matrix(tensor_or_dict)
                 ]
             )
             if param_values
-- 
2.43.0


From cb5bb119a79151c64e86ef0d716aa2d893cdf07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:10 +0000
Subject: [PATCH 017/131] fix: expectation values of batched observables with
 an unbatched circuit or state failed or were truncated

---
 qadence/backends/pyqtorch/backend.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..8d6853d 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -204,10 +204,12 @@ class Backend(BackendInterface):
             unpyqify_state=False,
         )
         observable = observable if isinstance(observable, list) else [observable]
-        _expectation = torch.hstack(
-            [obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable]
-        )
-        return _expectation
+        expvals = [
+            obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable
+        ]
+        # only some of the observables may depend on a batch of values
+        batch_size = max(len(ev) for ev in expvals)
+        return torch.hstack([ev.expand(batch_size, -1) for ev in expvals])
 
     def _looped_expectation(
         self,
@@ -240,9 +242,15 @@ class Backend(BackendInterface):
             param_values["observables"] if "observables" in param_values else param_values
         )
 
-        for vals_circ, vals_obs in zip(
-            to_list_of_dicts(param_circuits), to_list_of_dicts(param_observables)
-        ):
+        list_circ = to_list_of_dicts(param_circuits)
+        list_obs = to_list_of_dicts(param_observables)
+        # a single set of values goes with every element of a batch of the other one
+        if len(list_circ) == 1:
+            list_circ = list_circ * len(list_obs)
+        elif len(list_obs) == 1:
+            list_obs = list_obs * len(list_circ)
+
+        for vals_circ, vals_obs in zip(list_circ, list_obs):
             wf = self.run(
                 circuit, vals_circ, state, endianness, pyqify_state=True, unpyqify_state=False
             )
-- 
2.43.0


From ba22fcbcaaad2053ba60c13e5e159f834db5f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:55 +0000
Subject: [PATCH 018/131] fix: filling a block with identities erased the tags
 of the caller's block

---
 qadence/transpile/block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 26fce48..cbda4e8 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from logging import getLogger
 from functools import singledispatch
 from typing import Callable, Iterable, Type
@@ -293,6 +293,7 @@ def _(block: PrimitiveBlock, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)  # the caller's block keeps its tag
     block.tag = None
     bs = [block] + [I(i) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
@@ -306,6 +307,7 @@ def _(block: SWAP, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)  # the caller's block keeps its tag
     block.tag = None
     bs = [block] + [chain(I(i), I(i)) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
-- 
2.43.0


From 9d26ba30576e138feddb7485ec60ac5b2d95cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 019/131] fix: reassigning the qubits of an evolution left its
 generator on the old qubits

---
 qadence/transpile/invert.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..94340f8 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -21,6 +21,7 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
     """
     from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
     from qadence.blocks.utils import _construct
+    from qadence.operations import HamEvo
 
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
         if isinstance(block, ControlBlock) or isinstance(block, ParametricControlBlock):
@@ -43,6 +44,12 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
             blk._qubit_support = qs  # type: ignore[attr-defined]
+            if isinstance(block, HamEvo):
+                if isinstance(block.generator, AbstractBlock):
+                    blk.generator = _block_with_updated_support(block.generator)
+                blk.noise_operators = [
+                    _block_with_updated_support(op) for op in block.noise_operators
+                ]
             return blk
 
     return _block_with_updated_support(block)
-- 
2.43.0


From 917cec7c808e2664ce2430fad63b1f7eaaff721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 020/131] fix: filling a kron of interleaved blocks with
 identities failed

---
 qadence/transpile/block.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index cbda4e8..993ca3e 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -342,8 +342,15 @@ def _fill_kron(block: KronBlock, start: int, stop: int) -> list[AbstractBlock]:
     def id_chain(i: int, max_len: int) -> AbstractBlock:
         return chain(I(i) for _ in range(max_len))
 
-    # fill subblocks with identities
-    bs = [fill_identities(b, min(b.qubit_support), max(b.qubit_support)) for b in block]
+    # fill subblocks with identities, unless the wires in between belong to another subblock
+    def fill(b: AbstractBlock) -> AbstractBlock:
+        qs = b.qubit_support
+        gaps = set(range(min(qs), max(qs) + 1)) - set(qs)
+        if gaps & set(block.qubit_support):
+            return b
+        return fill_identities(b, min(qs), max(qs))
+
+    bs = [fill(b) for b in block]
 
     # make all subblocks equally "long" horizontally
     max_len = length(bs)
-- 
2.43.0


From 1a27163581a78f6de70c5c4fa3324515b146f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:36 +0000
Subject: [PATCH 021/131] fix: digital decomposition was wrong for gaps in the
 support, nested products and I or N terms

---
 qadence/decompose.py | 86 ++++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..68cf213 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -7,8 +7,7 @@ from typing import Any, List, Tuple, Union
 
 import sympy
 
-from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
+from qadence.blocks import AbstractBlock, AddBlock, ChainBlock, KronBlock, ScaleBlock
 from qadence.parameters import Parameter, evaluate
 
 # from qadence.types import TNumber, TParameter
@@ -21,21 +20,63 @@ logger = getLogger(__name__)
 flatten = lambda a: list(itertools.chain(*a))  # noqa: E731
 
 
-def change_to_z_basis(block: AbstractBlock, sign: int) -> list[AbstractBlock]:
-    """A simple function to do basis transformation of blocks of X and Y.
+PAULI_PRODUCTS = {"XY": ("Z", 1j), "YZ": ("X", 1j), "ZX": ("Y", 1j)}
+PAULI_PRODUCTS.update({k[::-1]: (p, -phase) for k, (p, phase) in PAULI_PRODUCTS.items()})
 
-    This needs to be generalized beyond 2 terms
+
+def pauli_terms(block: AbstractBlock) -> list[tuple[dict[int, str], Any]]:
+    """Expand a Pauli Hamiltonian into a sum of Pauli strings.
+
+    Returns:
+        A list of terms, each made of a dictionary from qubits to "X", "Y", "Z" or "I" and of
+        the coefficient of the term.
     """
 
     # import here due to circular import issue
-    from qadence.operations import RX, H, X, Y
-
+    from qadence.operations import N
+
+    if isinstance(block, ScaleBlock):
+        return [(term, block.scale * coeff) for term, coeff in pauli_terms(block.block)]
+    elif isinstance(block, AddBlock):
+        return flatten(map(pauli_terms, block.blocks))
+    elif isinstance(block, (ChainBlock, KronBlock)):
+        terms: list[tuple[dict[int, str], Any]] = [({}, Parameter(1.0))]
+        for b in block.blocks:
+            terms = [_multiply_terms(t, s) for t, s in itertools.product(terms, pauli_terms(b))]
+        return terms
     qubit = block.qubit_support[0]
+    if isinstance(block, N):
+        sign = -0.5 if block.ket == "1" else 0.5
+        return [({qubit: "I"}, Parameter(0.5)), ({qubit: "Z"}, Parameter(sign))]
+    return [({qubit: str(block.name)}, Parameter(1.0))]
+
+
+def _multiply_terms(first: tuple[dict, Any], second: tuple[dict, Any]) -> tuple[dict, Any]:
+    """The product of two terms, `first` being applied first."""
+    (res, coeff), (ops, coeff2) = (dict(first[0]), first[1]), second
+    coeff = coeff * coeff2
+    for qubit, p in ops.items():
+        q = res.get(qubit, "I")
+        if "I" in (p, q):
+            res[qubit] = p if q == "I" else q
+        elif q == p:
+            res[qubit] = "I"
+        else:
+            res[qubit], phase = PAULI_PRODUCTS[p + q]
+            coeff = coeff * sympy.sympify(phase)
+    return res, coeff
+
+
+def change_to_z_basis(pauli: str, qubit: int, sign: int) -> list[AbstractBlock]:
+    """A simple function to do basis transformation of X and Y."""
 
-    if isinstance(block, X):
+    # import here due to circular import issue
+    from qadence.operations import RX, H
+
+    if pauli == "X":
         return [H(target=qubit)]
 
-    elif isinstance(block, Y):
+    elif pauli == "Y":
         return [RX(parameter=sign * PI / 2.0, target=qubit)]
 
     return []
@@ -75,7 +116,7 @@ def lie_trotter_suzuki(
     # return a list of blocks
 
     if not isinstance(block, list):
-        block_list = unroll_block_with_scaling(block)
+        block_list = pauli_terms(block)
     else:  # recursive for 4th order
         block_list = block
 
@@ -106,27 +147,26 @@ def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) ->
     """A simple function to do decompositions of Pauli exponential operators into digital gates."""
 
     # import here due to circular import issue
-    from qadence.operations import CNOT, RZ
+    from qadence.operations import CNOT, PHASE, RZ, X
 
     blocks = []
 
-    for bl, scale in block_list:
-        # extract Pauli operations and raise an error in case
-        # a non-Pauli operation is found since it cannot be
-        # decomposed
-        n_blocks = len(get_pauli_blocks(bl))
-
+    for paulis, scale in block_list:
         # ensure that we keep the parameter as trainable
         fact = 2.0 * parameter * scale
 
-        blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
-        ztarget = max(indx)
+        indx = sorted(i for i in paulis if paulis[i] != "I")
+        if not indx:  # evolving with the identity only adds a global phase
+            target = max(paulis)
+            blocks.extend([PHASE(target, Parameter(-fact / 2.0)), X(target)] * 2)
+            continue
+
+        ztarget = indx[-1]
 
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
-        basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
+        cnot_sequence = [CNOT(i, j) for i, j in zip(indx[:-1], indx[1:])]
+        basis_fwd = [change_to_z_basis(paulis[i], i, 1) for i in indx]
         rot = [RZ(parameter=Parameter(fact), target=ztarget)]
-        basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
+        basis_bkd = [change_to_z_basis(paulis[i], i, -1) for i in reversed(indx)]
 
         # NOTE
         # perform the following operations in sequence to perform the decomposition of a
-- 
2.43.0


From 5057993e057ab3cb5bd822fcbac8da272dd94b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:14 +0000
Subject: [PATCH 022/131] fix: digital decomposition ignored the requested
 Trotter order and mirrored Y rotations wrongly in ST2

---
 qadence/decompose.py          | 3 ++-
 qadence/operations/ham_evo.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index 68cf213..6bf9a12 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -132,7 +132,8 @@ def lie_trotter_suzuki(
         if order == Order.ST2:  # Suzuki-Trotter 2nd order
             outer = decompose_pauli_exp(block_list[:-1], Parameter(t_delta / 2.0))
             inner = decompose_pauli_exp([block_list[-1]], Parameter(t_delta))
-            return (outer + inner + list(reversed(outer))) * t_steps
+            outer_rev = decompose_pauli_exp(block_list[-2::-1], Parameter(t_delta / 2.0))
+            return (outer + inner + outer_rev) * t_steps
 
         else:  # Suzuki-Trotter 4th order
             p2 = (4 - 4 ** (1 / 3)) ** -1  # minimises the 'ideal' error in the recursive formula
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 5445571..46a6640 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -247,9 +247,12 @@ class HamEvo(TimeEvolutionBlock):
 
         if block_is_qubit_hamiltonian(self.generator):
             try:
-                block_is_commuting_hamiltonian(self.generator)
-                approximation = LTSOrder.BASIC  # use the simpler approach if the H is commuting
+                is_commuting = block_is_commuting_hamiltonian(self.generator)
             except TypeError:
+                is_commuting = False
+            if is_commuting:
+                approximation = LTSOrder.BASIC  # use the simpler approach if the H is commuting
+            else:
                 logger.warning(
                     """Non-commuting terms in the Pauli operator.
                     The Suzuki-Trotter approximation is applied."""
-- 
2.43.0


From 781a294ba3b0fa5f4b9071f48450fc031c214f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:14 +0000
Subject: [PATCH 023/131] fix: flattening, digitalising, filling, inverting or
 daggering a circuit dropped its register

---
 qadence/circuit.py              | 2 +-
 qadence/transpile/circuit.py    | 2 +-
 qadence/transpile/digitalize.py | 2 +-
 qadence/transpile/flatten.py    | 2 +-
 qadence/transpile/invert.py     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index fd266fe..5d97849 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -116,7 +116,7 @@ class QuantumCircuit:
 
     def dagger(self) -> QuantumCircuit:
         """Reverse the QuantumCircuit by calling dagger on the block."""
-        return QuantumCircuit(self.n_qubits, self.block.dagger())
+        return QuantumCircuit(self.register, self.block.dagger())
 
     def get_blocks_by_tag(self, tag: str) -> list[AbstractBlock]:
         """Extract one or more blocks using the human-readable tag.
diff --git a/qadence/transpile/circuit.py b/qadence/transpile/circuit.py
index ee1829c..22df840 100644
--- a/qadence/transpile/circuit.py
+++ b/qadence/transpile/circuit.py
@@ -9,5 +9,5 @@ def fill_identities(circ: QuantumCircuit) -> QuantumCircuit:
     empty_wires = set(range(circ.n_qubits)) - set(circ.block.qubit_support)
     if len(empty_wires) > 0:
         ids = chain(I(i) for i in empty_wires)
-        return QuantumCircuit(circ.n_qubits, chain(circ.block, ids))
+        return QuantumCircuit(circ.register, chain(circ.block, ids))
     return circ
diff --git a/qadence/transpile/digitalize.py b/qadence/transpile/digitalize.py
index 12eed3e..e87f667 100644
--- a/qadence/transpile/digitalize.py
+++ b/qadence/transpile/digitalize.py
@@ -41,4 +41,4 @@ def _(block: AbstractBlock, approximation: LTSOrder = LTSOrder.BASIC) -> Abstrac
 
 @digitalize.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, approximation: LTSOrder = LTSOrder.BASIC) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, digitalize(circuit.block, approximation))
+    return QuantumCircuit(circuit.register, digitalize(circuit.block, approximation))
diff --git a/qadence/transpile/flatten.py b/qadence/transpile/flatten.py
index 863f845..5acaf6e 100644
--- a/qadence/transpile/flatten.py
+++ b/qadence/transpile/flatten.py
@@ -105,4 +105,4 @@ def _(block: AbstractBlock, types: list = [ChainBlock, KronBlock, AddBlock]) ->
 
 @flatten.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, types: list = [ChainBlock, KronBlock, AddBlock]) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, flatten(circuit.block, types=types))
+    return QuantumCircuit(circuit.register, flatten(circuit.block, types=types))
diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 94340f8..c778d79 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -148,5 +148,5 @@ def _(circuit: QuantumCircuit) -> QuantumCircuit:
         QuantumCircuit with endianess switched
     """
     return QuantumCircuit(
-        circuit.n_qubits, invert_endianness(circuit.block, circuit.n_qubits, False)
+        circuit.register, invert_endianness(circuit.block, circuit.n_qubits, False)
     )
-- 
2.43.0


From 4de5a41f04c3f5bc5b6cd47b7a2bc975e87d58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:21 +0000
Subject: [PATCH 024/131] fix: conversion to and from OpenFermion reversed
 products and put pure identities on qubit -1

---
 qadence/blocks/manipulate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/manipulate.py b/qadence/blocks/manipulate.py
index cf73b15..af762e1 100644
--- a/qadence/blocks/manipulate.py
+++ b/qadence/blocks/manipulate.py
@@ -29,7 +29,8 @@ def _(block: operations.I) -> QubitOperator:
 
 @to_openfermion.register
 def _(block: CompositeBlock) -> QubitOperator:
-    return reduce(lambda x, y: x * y, [to_openfermion(b) for b in block.blocks])
+    # the first block is applied first, hence it is the rightmost factor
+    return reduce(lambda x, y: y * x, [to_openfermion(b) for b in block.blocks])
 
 
 @to_openfermion.register
@@ -70,7 +71,7 @@ def from_openfermion(op: QubitOperator) -> AbstractBlock:
     @_convert.register
     def _(op: tuple) -> AbstractBlock:
         if len(op) == 0:
-            return operations.I(n_qubits - 1)
+            return operations.I(max(n_qubits - 1, 0))
         bs = [_convert_gate(gate) for gate in op]
         return kron(*bs) if len(bs) > 1 else bs[0]  # type: ignore [no-any-return]
 
-- 
2.43.0


From 2a7b801f1cbe131f6642c32acce42306ab62a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:06 +0000
Subject: [PATCH 025/131] fix: noise handlers of different lengths compared as
 equal

---
 qadence/noise/protocols.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..b523d3e 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,9 +126,7 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
-            options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
-            return protocols_equal and options_equal
+            return self.protocol == other.protocol and self.options == other.options
 
         return False
 
-- 
2.43.0


From f45fe0a1a47b1f642aaf17d6207cc300b0437ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:00 +0000
Subject: [PATCH 026/131] fix: registers with different edges or devices
 compared as equal

---
 qadence/register.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..fced9e8 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -354,8 +354,9 @@ class Register:
             return False
         return (
             DeepDiff(self.coords, other.coords, ignore_order=False) == {}
-            and nx.is_isomorphic(self.graph, other.graph)
+            and set(map(frozenset, self.edges)) == set(map(frozenset, other.edges))
             and self.n_qubits == other.n_qubits
+            and self.device_specs == other.device_specs
         )
 
 
-- 
2.43.0


From 9cf2a13569a6ebedf2cadf3a2250f83f83d73a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:00 +0000
Subject: [PATCH 027/131] fix: blocks of different operators compared as equal
 (noise, matrices, projectors, evolutions, repeated terms)

---
 qadence/blocks/composite.py   | 19 ++++++----
 qadence/blocks/matrix.py      |  8 +++++
 qadence/blocks/primitive.py   | 66 ++++++++++++++++++++++++++---------
 qadence/operations/ham_evo.py | 19 ++++++++++
 4 files changed, 90 insertions(+), 22 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 257de81..6d666e5 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -16,6 +16,17 @@ from .abstract import AbstractBlock
 from .primitive import ParametricBlock
 
 
+def _same_members(blocks: Tuple[AbstractBlock, ...], others: Tuple[AbstractBlock, ...]) -> bool:
+    """Whether two sets of blocks hold the same blocks equally often, in any order."""
+    remaining = list(others)
+    for b in blocks:
+        match = next((i for i, o in enumerate(remaining) if b == o), None)
+        if match is None:
+            return False
+        remaining.pop(match)
+    return not remaining
+
+
 class CompositeBlock(AbstractBlock):
     """Block which composes multiple blocks into one larger block (which can again be composed).
 
@@ -238,9 +249,7 @@ class KronBlock(CompositeBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, KronBlock):
-            if len(self.blocks) != len(other.blocks):
-                return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_members(self.blocks, other.blocks)
         return False
 
 
@@ -263,7 +272,5 @@ class AddBlock(CompositeBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, AddBlock):
-            if len(self.blocks) != len(other.blocks):
-                return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_members(self.blocks, other.blocks)
         return False
diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 2eb73ca..47fa6a5 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -100,6 +100,14 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and torch.equal(
+            self.matrix, other.matrix  # type: ignore[attr-defined]
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj(), self.qubit_support, noise=self.noise, check_unitary=False
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 3746c8f..f55cc36 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -23,6 +23,25 @@ from qadence.parameters import (
 from qadence.types import TParameter
 
 
+def _same_expression(p: sympy.Basic, o: sympy.Basic) -> bool:
+    """Whether two expressions are the same function of their parameters.
+
+    Note that a parameter compares equal to any expression containing it.
+    """
+    if p.free_symbols != o.free_symbols:
+        return False
+    difference = p - o
+    return bool(difference.is_zero or difference.equals(0))
+
+
+def _same_expressions(params: ParamMap, others: ParamMap) -> bool:
+    """Whether two sets of parameters hold the same expressions."""
+    pairs = list(zip(params.expressions(), others.expressions()))
+    return len(params.expressions()) == len(others.expressions()) and all(
+        _same_expression(p, o) for p, o in pairs
+    )
+
+
 class PrimitiveBlock(AbstractBlock):
     """
     Primitive blocks represent elementary unitary operations.
@@ -86,9 +105,15 @@ class PrimitiveBlock(AbstractBlock):
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
-        if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support
-        return False
+        return self._same_gate(other)
+
+    def _same_gate(self, other: AbstractBlock) -> bool:
+        """Whether other is the same kind of gate with the same support and noise."""
+        if type(other) is not type(self) or self.qubit_support != other.qubit_support:
+            return False
+        if self.noise is None or other.noise is None:  # type: ignore[attr-defined]
+            return self.noise is other.noise  # type: ignore[attr-defined]
+        return self.noise == other.noise  # type: ignore[attr-defined]
 
     def _to_dict(self) -> dict:
         return {
@@ -186,11 +211,9 @@ class ParametricBlock(PrimitiveBlock):
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
-        if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
-            )
-        return False
+        return self._same_gate(other) and _same_expressions(
+            self.parameters, other.parameters  # type: ignore[attr-defined]
+        )
 
     def __contains__(self, other: object) -> bool:
         if not isinstance(other, Parameter):
@@ -295,9 +318,9 @@ class ScaleBlock(ParametricBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         elif isinstance(other, ScaleBlock):
-            return (
+            return bool(
                 self.block == other.block
-                and self.parameters.parameter == other.parameters.parameter
+                and _same_expressions(self.parameters, other.parameters)
             )
         return False
 
@@ -311,6 +334,8 @@ class ScaleBlock(ParametricBlock):
                 return self.block == other
 
         if isinstance(other, Parameter):
+            if other in self.scale.free_symbols:
+                return True
             if isinstance(self.block, ParametricBlock) or isinstance(self.block, CompositeBlock):
                 return other in self.block
             return False
@@ -402,9 +427,9 @@ class ControlBlock(PrimitiveBlock):
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
-        if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.blocks[0] == other.blocks[0]
-        return False
+        return self._same_gate(other) and bool(
+            self.blocks[0] == other.blocks[0]  # type: ignore[attr-defined]
+        )
 
     def _to_dict(self) -> dict:
         return {
@@ -459,9 +484,9 @@ class ParametricControlBlock(ParametricBlock):
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
-        if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.blocks[0] == other.blocks[0]
-        return False
+        return self._same_gate(other) and bool(
+            self.blocks[0] == other.blocks[0]  # type: ignore[attr-defined]
+        )
 
     def _to_dict(self) -> dict:
         return {
@@ -544,3 +569,12 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and (self.ket, self.bra) == (
+            other.ket,  # type: ignore[attr-defined]
+            other.bra,  # type: ignore[attr-defined]
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 46a6640..4287feb 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -18,6 +18,7 @@ from qadence.blocks.utils import (
     chain,
     expressions,
 )
+from qadence.blocks.primitive import _same_expression
 from qadence.decompose import lie_trotter_suzuki
 from qadence.parameters import (
     Parameter,
@@ -199,6 +200,24 @@ class HamEvo(TimeEvolutionBlock):
 
         return n_qubits
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, AbstractBlock):
+            raise TypeError(f"Cant compare {type(self)} to {type(other)}")
+        if not isinstance(other, HamEvo) or not self._same_gate(other):
+            return False
+        if isinstance(self.generator, Tensor) and isinstance(other.generator, Tensor):
+            same_generator = torch.equal(self.generator, other.generator)
+        else:
+            same_generator = type(self.generator) is type(other.generator) and bool(
+                self.generator == other.generator
+            )
+        return (
+            same_generator
+            and _same_expression(self.parameters.parameter, other.parameters.parameter)
+            and bool(self.duration == other.duration)
+            and list(self.noise_operators) == list(other.noise_operators)
+        )
+
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
         return HamEvo(
-- 
2.43.0


From 808e63ea0b6fb09ce0b819881b1799d3a019e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:20 +0000
Subject: [PATCH 028/131] fix: deserialised blocks and expressions lost noise,
 tags, matrices, exponents, constants and parameter roles

---
 qadence/blocks/composite.py       | 13 +-----
 qadence/blocks/matrix.py          | 13 ++++++
 qadence/blocks/primitive.py       | 75 ++++++++++++++++++++++---------
 qadence/circuit.py                | 12 +----
 qadence/operations/control_ops.py |  7 +++
 qadence/operations/ham_evo.py     | 39 +++++++++++++++-
 qadence/operations/parametric.py  | 17 ++++++-
 qadence/operations/primitive.py   | 10 +++++
 qadence/parameters.py             |  8 +++-
 qadence/serial_expr_grammar.peg   | 11 ++---
 qadence/serialization.py          | 19 ++++----
 11 files changed, 163 insertions(+), 61 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 6d666e5..155c888 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -13,7 +13,7 @@ from qadence.parameters import Parameter
 from qadence.qubit_support import QubitSupport, QubitSupportType
 
 from .abstract import AbstractBlock
-from .primitive import ParametricBlock
+from .primitive import ParametricBlock, _block_from_dict
 
 
 def _same_members(blocks: Tuple[AbstractBlock, ...], others: Tuple[AbstractBlock, ...]) -> bool:
@@ -131,18 +131,9 @@ class CompositeBlock(AbstractBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> CompositeBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
         from qadence.blocks.utils import _construct, tag
 
-        blocks = [
-            (
-                getattr(operations, b["type"])._from_dict(b)
-                if hasattr(operations, b["type"])
-                else getattr(qadenceblocks, b["type"])._from_dict(b)
-            )
-            for b in d["blocks"]
-        ]
+        blocks = tuple(_block_from_dict(b) for b in d["blocks"])
         block = _construct(cls, blocks)  # type: ignore[arg-type]
         if d["tag"] is not None:
             tag(block, d["tag"])
diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 47fa6a5..151ce1f 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -10,6 +10,7 @@ from torch.linalg import eigvals
 from math import log
 
 from qadence.blocks import PrimitiveBlock
+from qadence.blocks.primitive import _matrix_from_dict, _matrix_to_dict
 from qadence.noise import NoiseHandler
 
 logger = getLogger(__name__)
@@ -108,6 +109,18 @@ class MatrixBlock(PrimitiveBlock):
     def __hash__(self) -> int:
         return super().__hash__()
 
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "matrix": _matrix_to_dict(self.matrix)}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        return cls(
+            _matrix_from_dict(d["matrix"]),
+            tuple(d["qubit_support"]),
+            noise=NoiseHandler._from_dict(d.get("noise")),
+            check_unitary=False,
+        )
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj(), self.qubit_support, noise=self.noise, check_unitary=False
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index f55cc36..55450c1 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -42,6 +42,30 @@ def _same_expressions(params: ParamMap, others: ParamMap) -> bool:
     )
 
 
+def _block_from_dict(d: dict) -> AbstractBlock:
+    """Rebuild a block, including its tag, from its dictionary."""
+    from qadence import blocks as qadenceblocks
+    from qadence import operations
+
+    block: AbstractBlock = (
+        getattr(operations, d["type"])
+        if hasattr(operations, d["type"])
+        else getattr(qadenceblocks, d["type"])
+    )._from_dict(d)
+    block.tag = d["tag"]
+    return block
+
+
+def _matrix_to_dict(matrix: torch.Tensor) -> dict:
+    return {"real": matrix.real.tolist(), "imag": matrix.to(torch.cdouble).imag.tolist()}
+
+
+def _matrix_from_dict(d: dict) -> torch.Tensor:
+    return torch.complex(
+        torch.tensor(d["real"], dtype=torch.double), torch.tensor(d["imag"], dtype=torch.double)
+    )
+
+
 class PrimitiveBlock(AbstractBlock):
     """
     Primitive blocks represent elementary unitary operations.
@@ -358,17 +382,8 @@ class ScaleBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ScaleBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
         expr = ParamMap._from_dict(d["parameters"])
-        block: AbstractBlock
-        if hasattr(operations, d["block"]["type"]):
-            block = getattr(operations, d["block"]["type"])._from_dict(d["block"])
-
-        else:
-            block = getattr(qadenceblocks, d["block"]["type"])._from_dict(d["block"])
-        return cls(block, expr)  # type: ignore[arg-type]
+        return cls(_block_from_dict(d["block"]), expr)  # type: ignore[arg-type]
 
 
 class TimeEvolutionBlock(ParametricBlock):
@@ -393,6 +408,7 @@ class ControlBlock(PrimitiveBlock):
     name = "Control"
     control: tuple[int, ...]
     target: tuple[int, ...]
+    _single_control: bool = False
 
     def __init__(
         self,
@@ -442,9 +458,14 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        n_targets = len(d["blocks"][0]["qubit_support"])
+        control = tuple(d["qubit_support"][:-n_targets])
+        target = d["qubit_support"][-n_targets:]
+        return cls(
+            control[0] if cls._single_control else control,  # type: ignore[arg-type]
+            *target,
+            noise=NoiseHandler._from_dict(d.get("noise")),
+        )
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -458,6 +479,7 @@ class ParametricControlBlock(ParametricBlock):
     name = "ParameterizedControl"
     control: tuple[int, ...] = ()
     blocks: tuple[ParametricBlock, ...]
+    _single_control: bool = False
 
     def __init__(
         self,
@@ -499,14 +521,13 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
-        return block
+        control = tuple(d["qubit_support"][:-1])
+        return cls(
+            control[0] if cls._single_control else control,  # type: ignore[arg-type]
+            d["qubit_support"][-1],
+            ParamMap._from_dict(d["blocks"][0]["parameters"]),
+            noise=NoiseHandler._from_dict(d.get("noise")),
+        )
 
     @property
     def _block_title(self) -> str:
@@ -570,6 +591,18 @@ class ProjectorBlock(PrimitiveBlock):
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
 
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        return cls(
+            ket=d["ket"],
+            bra=d["bra"],
+            qubit_support=tuple(d["qubit_support"]),
+            noise=NoiseHandler._from_dict(d.get("noise")),
+        )
+
     def __eq__(self, other: object) -> bool:
         return super().__eq__(other) and (self.ket, self.bra) == (
             other.ket,  # type: ignore[attr-defined]
diff --git a/qadence/circuit.py b/qadence/circuit.py
index 5d97849..c653956 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -9,6 +9,7 @@ from typing import Iterable
 from sympy import Basic
 
 from qadence.blocks import AbstractBlock, AnalogBlock, CompositeBlock, chain
+from qadence.blocks.primitive import _block_from_dict
 from qadence.blocks.utils import parameters, primitive_blocks, unique_parameters
 from qadence.parameters import Parameter
 from qadence.register import Register
@@ -176,18 +177,9 @@ class QuantumCircuit:
 
     @classmethod
     def _from_dict(cls, d: dict) -> QuantumCircuit:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
-        RootBlock = (
-            getattr(operations, d["block"]["type"])
-            if hasattr(operations, d["block"]["type"])
-            else getattr(qadenceblocks, d["block"]["type"])
-        )
-
         return QuantumCircuit(
             Register._from_dict(d["register"]),
-            RootBlock._from_dict(d["block"]),
+            _block_from_dict(d["block"]),
         )
 
     @classmethod
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index f4cc941..339f8b5 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -35,6 +35,7 @@ class CNOT(ControlBlock):
     """The CNot, or CX, gate."""
 
     name = OpName.CNOT
+    _single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         self.generator = kron(N(control), X(target) - I(target))
@@ -95,6 +96,7 @@ class CZ(MCZ):
     """The CZ gate."""
 
     name = OpName.CZ
+    _single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
@@ -132,6 +134,7 @@ class CRX(MCRX):
     """The CRX gate."""
 
     name = OpName.CRX
+    _single_control = True
 
     def __init__(
         self,
@@ -175,6 +178,7 @@ class CRY(MCRY):
     """The CRY gate."""
 
     name = OpName.CRY
+    _single_control = True
 
     def __init__(
         self, control: int, target: int, parameter: TParameter, noise: NoiseHandler | None = None
@@ -214,6 +218,7 @@ class CRZ(MCRZ):
     """The CRZ gate."""
 
     name = OpName.CRZ
+    _single_control = True
 
     def __init__(
         self,
@@ -270,6 +275,7 @@ class CPHASE(MCPHASE):
     """The CPHASE gate."""
 
     name = OpName.CPHASE
+    _single_control = True
 
     def __init__(
         self,
@@ -285,6 +291,7 @@ class CSWAP(ControlBlock):
     """The CSWAP (Control-SWAP) gate."""
 
     name = OpName.CSWAP
+    _single_control = True
 
     def __init__(
         self,
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 4287feb..c492a1b 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -18,7 +18,12 @@ from qadence.blocks.utils import (
     chain,
     expressions,
 )
-from qadence.blocks.primitive import _same_expression
+from qadence.blocks.primitive import (
+    _block_from_dict,
+    _matrix_from_dict,
+    _matrix_to_dict,
+    _same_expression,
+)
 from qadence.decompose import lie_trotter_suzuki
 from qadence.parameters import (
     Parameter,
@@ -218,6 +223,38 @@ class HamEvo(TimeEvolutionBlock):
             and list(self.noise_operators) == list(other.noise_operators)
         )
 
+    def _to_dict(self) -> dict:
+        from qadence.serialization import serialize
+
+        return {
+            "type": type(self).__name__,
+            "qubit_support": self.qubit_support,
+            "tag": self.tag,
+            "parameter": serialize(self.parameters.parameter),
+            "generator": (
+                self.generator._to_dict()
+                if isinstance(self.generator, AbstractBlock)
+                else _matrix_to_dict(self.generator)  # type: ignore[arg-type]
+            ),
+            "duration": (
+                None if self.duration is None else serialize(self.parameters.duration)
+            ),
+            "noise_operators": [op._to_dict() for op in self.noise_operators],
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        from qadence.serialization import deserialize
+
+        generator = d["generator"]
+        return cls(
+            _block_from_dict(generator) if "type" in generator else _matrix_from_dict(generator),
+            deserialize(d["parameter"]),  # type: ignore[arg-type]
+            qubit_support=tuple(d["qubit_support"]),
+            duration=None if d["duration"] is None else deserialize(d["duration"]),  # type: ignore[arg-type]
+            noise_operators=[_block_from_dict(op) for op in d["noise_operators"]],
+        )
+
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
         return HamEvo(
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 5a4769d..d94d4c6 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -40,7 +40,9 @@ class PHASE(ParametricBlock):
         parameter: Parameter | TNumber | sympy.Expr | str,
         noise: NoiseHandler | None = None,
     ) -> None:
-        self.parameters = ParamMap(parameter=parameter)
+        self.parameters = (
+            parameter if isinstance(parameter, ParamMap) else ParamMap(parameter=parameter)
+        )
         self.generator = I(target) - Z(target)
         super().__init__((target,), noise=noise)
 
@@ -175,6 +177,19 @@ class U(ParametricBlock):
         self.generator = chain(Z(target), Y(target), Z(target))
         super().__init__((target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> U:
+        params = ParamMap._from_dict(d["parameters"])
+        block = cls(
+            d["qubit_support"][0],
+            params.phi,
+            params.theta,
+            params.omega,
+            noise=NoiseHandler._from_dict(d.get("noise")),
+        )
+        block.parameters = params
+        return block
+
     @classmethod
     def num_parameters(cls) -> int:
         return 3
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 608e994..e47796b 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -167,6 +167,12 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        return cls(
+            d["qubit_support"][0], state=d["ket"], noise=NoiseHandler._from_dict(d.get("noise"))
+        )
+
     def dagger(self) -> N:
         return self
 
@@ -262,6 +268,10 @@ class Zero(PrimitiveBlock):
         self.generator = 0 * I(0)
         super().__init__((0,))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> Zero:
+        return cls()
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.zeros(2, dtype=cdouble)
diff --git a/qadence/parameters.py b/qadence/parameters.py
index 60a447e..181e62c 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -32,6 +32,7 @@ ParameterJSONSchema = {
         "name": {"type": "string"},
         "trainable": {"type": "string"},
         "value": {"type": "string"},
+        "is_time": {"type": "string"},
     },
     "oneOf": [
         {
@@ -162,6 +163,8 @@ class Parameter(Symbol):
 
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
+        if self.is_time:
+            d["is_time"] = "True"
         try:
             jsonschema.validate(d, ParameterJSONSchema)
             return d
@@ -174,7 +177,10 @@ class Parameter(Symbol):
         try:
             jsonschema.validate(d, ParameterJSONSchema)
             trainable = True if d["trainable"] == "True" else False
-            return cls(name=d["name"], trainable=trainable, value=float(d["value"]))
+            is_time = d.get("is_time") == "True"
+            return cls(
+                name=d["name"], trainable=trainable, value=float(d["value"]), is_time=is_time
+            )
         except jsonschema.exceptions.ValidationError as e:
             logger.exception(f"Parameter dict {d} doesnt comply to {ParameterJSONSchema} with {e}.")
             return None
diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..0126297 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,11 +1,12 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
 args = (value / expr) (',' (value / expr))*
-value = int / float_str / str / pair
+value = int / float_str / str / pair / const
 pair = param '=' (int / bool / str)
-param = r"[a-z][a-zA-Z]*"
+param = r"[a-z][a-zA-Z_]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
-str = r"'[a-zA-Z0-9\_\.]+'"
+float_str = r"'-?(0|\d*(\.\d*))(e[+-]?\d+)?'"
+const = r"(I|pi|E)(?![a-zA-Z_0-9(=])"
+str = r"'[\w\.]+'"
diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..5d27bd0 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -20,7 +20,7 @@ from sympy import core, srepr
 from qadence import QNN, QuantumCircuit, QuantumModel, operations, parameters
 from qadence import blocks as qadenceblocks
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import tag
+from qadence.blocks.primitive import _block_from_dict
 from qadence.parameters import Parameter
 from qadence.register import Register
 from qadence.types import SerializationFormat
@@ -143,14 +143,7 @@ class BlockTypeSerialization(SerializationModel):
     value: AbstractBlock = dataclass_field(init=False)
 
     def __post_init__(self) -> None:
-        block = (
-            getattr(operations, self.d["type"])
-            if hasattr(operations, self.d["type"])
-            else getattr(qadenceblocks, self.d["type"])
-        )._from_dict(self.d)
-        if self.d["tag"] is not None:
-            block = tag(block, self.d["tag"])
-        self.value = block
+        self.value = _block_from_dict(self.d)
 
 
 @dataclass
@@ -210,7 +203,10 @@ class ExpressionSerialization(SerializationModel):
             expr = eval(self.d["expression"])
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
-                    s.value = float(self.d["symbols"][s.name]["value"])
+                    symbol = self.d["symbols"][s.name]
+                    s.value = float(symbol["value"])
+                    s.trainable = symbol["trainable"] == "True"
+                    s.is_time = symbol.get("is_time") == "True"
             self.value = expr
         else:
             raise ValueError(f"Invalid expression: {self.d['expression']}")
@@ -478,4 +474,5 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    # restore the parameters of a model whenever the file contains them
+    return deserialize(d, as_torch=bool(d.get("param_dict")))
-- 
2.43.0


From 049773421128e1c76b921d9c7e399423376b7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:20 +0000
Subject: [PATCH 029/131] fix: deserialising an expression evaluated names
 outside the expression grammar

---
 qadence/serialization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 5d27bd0..5f68f77 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -8,6 +8,7 @@ from dataclasses import field as dataclass_field
 from functools import lru_cache
 from logging import getLogger
 from pathlib import Path
+from re import findall
 from typing import Any, Callable, get_args
 from typing import Union as TypingUnion
 
@@ -68,6 +69,14 @@ SYMPY_EXPRS = [n for n in dir(core) if not (n.startswith("__") and n.endswith("_
 QADENCE_PARAMETERS = [n for n in dir(parameters) if not (n.startswith("__") and n.endswith("__"))]
 
 
+# the names a serialized expression may refer to
+EXPR_NAMES = {
+    n: v
+    for n, v in globals().copy().items()
+    if (isinstance(v, type) and issubclass(v, core.Basic)) or n in ("I", "pi", "E")
+}
+
+
 THIS_PATH = Path(__file__).parent
 GRAMMAR_FILE = THIS_PATH / "serial_expr_grammar.peg"
 
@@ -199,8 +208,9 @@ class ExpressionSerialization(SerializationModel):
     value: str | core.Expr | float = dataclass_field(init=False)
 
     def __post_init__(self) -> None:
-        if parse_expr_fn(self.d["expression"]):
-            expr = eval(self.d["expression"])
+        names = findall(r"(\w+)\s*\(", self.d["expression"])
+        if parse_expr_fn(self.d["expression"]) and EXPR_NAMES.keys() >= set(names):
+            expr = eval(self.d["expression"], {"__builtins__": {}}, EXPR_NAMES)
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
                     symbol = self.d["symbols"][s.name]
-- 
2.43.0


From a075b1f9aeb39e593e840919cecba941e247c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:20 +0000
Subject: [PATCH 030/131] fix: registers, devices and addressing patterns did
 not survive serialisation

---
 qadence/analog/addressing.py | 17 ++++++++++++++---
 qadence/analog/device.py     |  3 +--
 qadence/register.py          |  1 +
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/qadence/analog/addressing.py b/qadence/analog/addressing.py
index b42c1be..de728e9 100644
--- a/qadence/analog/addressing.py
+++ b/qadence/analog/addressing.py
@@ -1,10 +1,10 @@
 from __future__ import annotations
 
 from dataclasses import dataclass, fields
-from typing import Union
+from typing import Any, Union
 from warnings import warn
 
-from sympy import Expr, Heaviside, exp
+from sympy import Basic, Expr, Heaviside, exp
 from torch import Tensor
 
 from qadence.parameters import Parameter, evaluate
@@ -165,8 +165,19 @@ class AddressingPattern:
         return {k: evaluate(v, values, as_torch=True).flatten() for k, v in weights.items()}  # type: ignore [union-attr]
 
     def _to_dict(self) -> dict:
-        return {field.name: getattr(self, field.name) for field in fields(self)}
+        def number(v: Any) -> Any:
+            return float(v) if isinstance(v, Basic) and v.is_number else v
+
+        d = {field.name: getattr(self, field.name) for field in fields(self)}
+        return {
+            name: {k: number(w) for k, w in v.items()} if isinstance(v, dict) else number(v)
+            for name, v in d.items()
+        }
 
     @classmethod
     def _from_dict(cls, d: dict) -> AddressingPattern | None:
+        d = {  # the keys of a dictionary read from a JSON file are strings
+            name: {int(k): w for k, w in v.items()} if isinstance(v, dict) else v
+            for name, v in d.items()
+        }
         return cls(**d) if len(d) > 0 else None
diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
diff --git a/qadence/register.py b/qadence/register.py
index fced9e8..cdb7a22 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From c01068a8b0c1973752382baed0481ccf857500ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:20 +0000
Subject: [PATCH 031/131] fix: models, noise and measurement protocols did not
 survive serialisation

---
 qadence/measurements/protocols.py |  2 +-
 qadence/ml_tools/models.py        |  4 +++-
 qadence/model.py                  |  4 ++--
 qadence/noise/protocols.py        | 16 +++++++++++++++-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..a32d4d3 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -465,6 +465,7 @@ class QNN(QuantumModel):
         try:
             d = super()._to_dict(save_params)
             d[self.__class__.__name__]["inputs"] = [str(i) for i in self.inputs]
+            d[self.__class__.__name__]["input_diff_mode"] = self.input_diff_mode
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
             logger.warning(f"Unable to serialize {self.__class__.__name__} due to {e}.")
@@ -486,13 +487,14 @@ class QNN(QuantumModel):
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
                 inputs=qm_dict["inputs"],
+                input_diff_mode=qm_dict.get("input_diff_mode", InputDiffMode.AD),
             )
 
             if as_torch:
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..fbdc19a 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -473,7 +473,7 @@ class QuantumModel(nn.Module):
             if isinstance(self._observable, list):
                 abs_obs = [obs.abstract._to_dict() for obs in self._observable]
             else:
-                abs_obs = [dict()]
+                abs_obs = None
 
             d = {
                 "circuit": self._circuit.abstract._to_dict(),
@@ -529,7 +529,7 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index b523d3e..e67c77a 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -139,9 +139,23 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            return cls(
+                [cls._protocol_from_str(p, o) for p, o in zip(d["protocol"], d["options"])],
+                d["options"],
+            )
         return None
 
+    @staticmethod
+    def _protocol_from_str(protocol: NoiseEnum | str, option: dict) -> NoiseEnum:
+        # protocols are plain strings when the dictionary was read from a JSON file
+        if type(protocol) is not str:
+            return protocol  # type: ignore[return-value]
+        if protocol in list(NoiseProtocol.READOUT):
+            return NoiseProtocol.READOUT(protocol)
+        if "noise_probs" in option:
+            return NoiseProtocol.ANALOG(protocol)
+        return NoiseProtocol.DIGITAL(protocol)
+
     @classmethod
     def list(cls) -> list:
         return list(filter(lambda el: not el.startswith("__"), dir(cls)))
-- 
2.43.0


From 648dc5ef3f62ca58c0c94dd53aee9a396a678286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:54 +0000
Subject: [PATCH 032/131] fix: parameter shift rules failed on evolutions with
 a matrix generator

---
 qadence/backends/parameter_shift_rules.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qadence/backends/parameter_shift_rules.py b/qadence/backends/parameter_shift_rules.py
index 159d479..e6514b6 100644
--- a/qadence/backends/parameter_shift_rules.py
+++ b/qadence/backends/parameter_shift_rules.py
@@ -128,7 +128,6 @@ def multi_gap_psr(
         Tensor: tensor containing derivative values
     """
     n_eqs = len(spectral_gaps)
-    batch_size = max(t.size(0) for t in param_dict.values())
 
     # get shift values - values minimize the variance of expectation
     if shift_prefac is not None:
@@ -150,7 +149,6 @@ def multi_gap_psr(
     # (see: https://arxiv.org/pdf/2108.01218.pdf on p. 4 for definitions)
     F = []
     M = 4 * torch.sin(torch.outer(shifts, spectral_gaps) / 2).to(device=device)
-    n_obs = 1
     for i in range(n_eqs):
         # + shift
         shifted_params = param_dict.copy()
@@ -164,10 +162,9 @@ def multi_gap_psr(
 
         F.append((f_plus - f_minus))
 
-    # get number of observables from expectation value tensor
-    if f_plus.numel() > 1:
-        batch_size = F[0].shape[0]
-        n_obs = F[0].shape[1]
+    # get batch size and number of observables from expectation value tensor
+    # (not from the parameters, which can be matrices)
+    batch_size, n_obs = F[0].shape
 
     # reshape F vector
     F = torch.stack(F).reshape(n_eqs, -1)
-- 
2.43.0


From 4f4eabbf6c69b455a64c96a6a8b4c62f1b24cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:54 +0000
Subject: [PATCH 033/131] fix: adjoint and shift-rule gradients of observable
 parameters, several observables and repeated backward passes

---
 .../torch/differentiable_expectation.py       | 52 +++++++++++++++----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..009bf82 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -6,7 +6,7 @@ from functools import partial
 from typing import Any, Callable, Sequence
 
 import torch
-from pyqtorch.differentiation import AdjointExpectation
+from pyqtorch.differentiation import AdjointExpectation as PyQAdjointExpectation
 from torch import Tensor
 from torch.autograd import Function
 
@@ -23,6 +23,30 @@ from qadence.noise import NoiseHandler
 from qadence.types import Endianness, ParamDictType
 
 
+def coefficient_rule(
+    expectation_fn: Callable[[dict[str, Tensor]], Tensor],
+    param_dict: dict[str, Tensor],
+    param_name: str,
+) -> Tensor:
+    """Derivative of the expectation value with respect to a coefficient of the observable."""
+    value = param_dict[param_name]
+    f_plus = expectation_fn({**param_dict, param_name: value + 1.0})
+    f_minus = expectation_fn({**param_dict, param_name: value - 1.0})
+    return (f_plus - f_minus) / 2.0
+
+
+class AdjointExpectation(PyQAdjointExpectation):
+    """Adjoint differentiation whose graph can be traversed repeatedly."""
+
+    @staticmethod
+    def backward(ctx: Any, grad_out: Tensor) -> tuple:
+        # the backward pass undoes the circuit on the states of the context
+        out_state, projected_state = ctx.out_state, ctx.projected_state
+        grads = PyQAdjointExpectation.backward(ctx, grad_out)
+        ctx.out_state, ctx.projected_state = out_state, projected_state
+        return grads
+
+
 class PSRExpectation(Function):
     """Overloads the PyTorch AD system to perform parameter shift rule on quantum circuits."""
 
@@ -149,20 +173,28 @@ class DifferentiableExpectation:
             )
         batch_size = max(values_batch_size, self.state.size(-1))
 
+        with torch.no_grad():
+            out_state = self.circuit.native.run(self.state, self.param_values)
+
         def expectation_fn(i: int) -> Tensor:
-            return AdjointExpectation.apply(
+            native = self.observable[i].native
+            expval = AdjointExpectation.apply(
                 self.circuit.native,
                 self.state,
-                self.observable[i].native,  # Currently, adjoint only supports a single observable.
+                native,  # Currently, adjoint only supports a single observable.
                 None,
                 self.param_values.keys(),
                 *self.param_values.values(),
-            ).reshape(
-                batch_size, 1
-            )  # we expect (batch_size, n_observables) shape
+            )
+            # The adjoint method only differentiates the parameters of the circuit,
+            # add the gradient (but not the value) with respect to those of the observable.
+            obs_expval = native.expectation(out_state, self.param_values)
+            expval = expval + obs_expval - obs_expval.detach()
+            # we expect (batch_size, n_observables) shape
+            return expval.reshape(-1, 1).expand(batch_size, 1)
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
@@ -245,9 +277,9 @@ class DifferentiableExpectation:
                 param_to_psr[param_id] = psr_fn(eigenvalues, **psr_args_factor)
         for obs in observable:
             for param_id, _ in uuid_to_eigen(obs).items():
-                # We need the embedded fixed params of the observable in the param_values dict
+                # We need the embedded params of the observable in the param_values dict
                 # to be able to call expectation. Since torch backward requires
                 # a list of param_ids and values of equal length, we need to pass them to PSR too.
-                # Since they are constants their gradients are 0.
-                param_to_psr[param_id] = lambda x: torch.tensor([0.0], requires_grad=False)
+                # They are coefficients, in which the expectation value is linear.
+                param_to_psr[param_id] = coefficient_rule
         return param_to_psr
-- 
2.43.0


From 886764a66675598cf187573e89c78f00931a7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:51 +0000
Subject: [PATCH 034/131] fix: JAX expectation values of circuits without
 parameters failed

---
 qadence/backends/horqrux/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 5e32152..605c7b0 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -139,8 +139,8 @@ class Backend(BackendInterface):
             raise NotImplementedError("The Horqrux backend does not support separated parameters.")
         else:
             merged_params = param_values
-            batch_size = max([arr.size for arr in param_values.values()])  # type: ignore[union-attr]
-        n_obs = len(observable)
+            batch_size = max([arr.size for arr in param_values.values()], default=1)  # type: ignore[union-attr]
+        n_obs = len(observables)
 
         def _expectation(params: ParamDictType) -> ArrayLike:
             param_circuits = params["circuit"] if "circuit" in params else params
-- 
2.43.0


From 67e402876512395ef2cf33096f36c387288b120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:44 +0000
Subject: [PATCH 035/131] fix: JAX states and samples of a batch of values
 mixed the values

---
 qadence/backends/horqrux/backend.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 605c7b0..0670d21 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -94,6 +94,13 @@ class Backend(BackendInterface):
             A jax.Array of shape [2,2,...] if unhorqify=True else shape = [1, 2**n_qubits]
         """
         n_qubits = circuit.abstract.n_qubits
+        if max([arr.size for arr in param_values.values()], default=1) > 1:  # type: ignore[union-attr]
+            # We vmap for batch_size > 1
+            return jax.vmap(
+                lambda values: self.run(
+                    circuit, values, state, endianness, horqify_state, unhorqify_state
+                )
+            )(uniform_batchsize(param_values))
         if state is None:
             state = zero_state(n_qubits)
         else:
@@ -206,15 +213,18 @@ class Backend(BackendInterface):
             horqify_state=True,
             unhorqify_state=False,
         )
-        probs = jnp.abs(jnp.float_power(wf, 2.0)).ravel()
+        batch_probs = jnp.abs(jnp.float_power(wf, 2.0)).reshape(-1, 2**circuit.abstract.n_qubits)
         key = jax.random.PRNGKey(0)
         # JAX handles pseudo random number generation by tracking an explicit state via a random key
         # For more details, see https://jax.readthedocs.io/en/latest/random-numbers.html
-        samples = jax.vmap(
-            lambda subkey: jax.random.choice(
-                key=subkey, a=jnp.arange(0, 2**circuit.abstract.n_qubits), p=probs
-            )
-        )(jax.random.split(key, n_shots))
+        batch_samples = [
+            jax.vmap(
+                lambda subkey: jax.random.choice(
+                    key=subkey, a=jnp.arange(0, 2**circuit.abstract.n_qubits), p=probs
+                )
+            )(jax.random.split(key, n_shots))
+            for probs in batch_probs
+        ]
 
         return [
             Counter(
@@ -226,6 +236,7 @@ class Backend(BackendInterface):
                     if count > 0
                 }
             )
+            for samples in batch_samples
         ]
 
     def assign_parameters(self, circuit: ConvertedCircuit, param_values: ParamDictType) -> Any:
-- 
2.43.0


From c2ee5bdd482977fea0d12033e78035491b63b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:04 +0000
Subject: [PATCH 036/131] fix: JAX matrices of projectors and little endian
 matrices were wrong

---
 qadence/backends/jax_utils.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/qadence/backends/jax_utils.py b/qadence/backends/jax_utils.py
index fbb4862..5e19658 100644
--- a/qadence/backends/jax_utils.py
+++ b/qadence/backends/jax_utils.py
@@ -79,18 +79,17 @@ def _fill_identities(
     diag_only: bool = False,
     endianness: Endianness = Endianness.BIG,
 ) -> Array:
-    qubit_support = tuple(sorted(qubit_support))
-    mat = IMAT if qubit_support[0] != full_qubit_support[0] else block_mat
-    if diag_only:
-        mat = jnp.diag(mat.squeeze(0))
-    for i in full_qubit_support[1:]:
-        if i == qubit_support[0]:
-            other = jnp.diag(block_mat) if diag_only else block_mat
-            mat = jnp.kron(mat, other)
-        elif i not in qubit_support:
-            other = jnp.diag(IMAT) if diag_only else IMAT
-            mat = jnp.kron(mat, other)
-    return mat
+    n_qubits = len(full_qubit_support)
+    rest = tuple(q for q in full_qubit_support if q not in qubit_support)
+    # the block acts on the leading qubits, then bring the qubits in order
+    mat = jnp.kron(block_mat, jnp.eye(2 ** len(rest), dtype=jnp.cdouble))
+    axes = [(*qubit_support, *rest).index(q) for q in full_qubit_support]
+    if endianness == Endianness.LITTLE:
+        axes = axes[::-1]
+    mat = mat.reshape([2] * (2 * n_qubits))
+    mat = mat.transpose(axes + [n_qubits + i for i in axes])
+    mat = mat.reshape(2**n_qubits, 2**n_qubits)
+    return jnp.diag(mat) if diag_only else mat
 
 
 def block_to_jax(
@@ -153,7 +152,7 @@ def block_to_jax(
         bra = tensor_to_jnp(product_state(block.bra))
         ket = tensor_to_jnp(product_state(block.ket))
 
-        block_mat = jnp.kron(ket, bra.T)
+        block_mat = jnp.kron(ket.T, bra)
 
         mat = _fill_identities(
             block_mat,
-- 
2.43.0


From 505a24185bc600958db32248b3999cd67e4640c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:37 +0000
Subject: [PATCH 037/131] fix: building a register rescaled the caller's graph
 and registers sharing it

---
 qadence/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index cdb7a22..58005ca 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -70,7 +70,7 @@ class Register:
 
         self.device_specs = device_specs
 
-        self.graph = support if isinstance(support, nx.Graph) else alltoall_graph(support)
+        self.graph = deepcopy(support) if isinstance(support, nx.Graph) else alltoall_graph(support)
 
         if spacing is not None and self.min_distance != 0.0:
             _scale_node_positions(self.graph, self.min_distance, spacing)
-- 
2.43.0


From 37a7471a7b4e27fb17252730d46c6e663ebe6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:45 +0000
Subject: [PATCH 038/131] fix: nested parallel analog blocks were dropped and
 parallel interactions failed

---
 qadence/analog/parse_analog.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..e8404d2 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -8,6 +8,8 @@ from qadence.analog.hamiltonian_terms import (
 from qadence.blocks import chain
 from qadence.blocks.abstract import AbstractBlock
 from qadence.blocks.analog import (
+    AnalogBlock,
+    AnalogComposite,
     AnalogKron,
     ConstantAnalogRotation,
     InteractionBlock,
@@ -82,6 +84,19 @@ def _build_rot_ham_evo(
     return HamEvo(h_block, duration / 1000)
 
 
+def _kronned_blocks(block: AnalogBlock) -> list[AnalogBlock]:
+    """The blocks of an AnalogKron, including those of the AnalogKrons nested in it."""
+    if not isinstance(block, AnalogKron):
+        return [block]
+    return [b for sub in block.blocks for b in _kronned_blocks(sub)]
+
+
+def _has_rotation(block: AnalogBlock) -> bool:
+    if isinstance(block, AnalogComposite):
+        return any(_has_rotation(b) for b in block.blocks)
+    return isinstance(block, ConstantAnalogRotation)
+
+
 def _analog_to_hevo(
     block: AbstractBlock, register: Register, h_int: AbstractBlock, h_addr: AbstractBlock | None
 ) -> AbstractBlock:
@@ -108,13 +123,15 @@ def _analog_to_hevo(
         # FIXME: Revisit this assumption and the need for AnalogKron to have
         # the same duration, and clean this code accordingly.
         # https://github.com/pasqal-io/qadence/issues/226
-        ops = []
-        for block in block.blocks:
-            if isinstance(block, ConstantAnalogRotation):
-                h_drive = rydberg_drive_hamiltonian(block, register)
-                ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
+        blocks = _kronned_blocks(block)
+        ops = [
+            apply_fn_to_blocks(b, _analog_to_hevo, register, h_int, h_addr)
+            for b in blocks
+            if _has_rotation(b)
+        ]
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            # only interactions, which share their duration: the register evolves once
+            ops.append(apply_fn_to_blocks(blocks[0], _analog_to_hevo, register, h_int, h_addr))
         return chain(*ops)
 
     return block
-- 
2.43.0


From 2a29e9cbde8b7d7a492ca74056d4b190920ee4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:21 +0000
Subject: [PATCH 039/131] fix: noise handlers built from the same lists or
 options changed together

---
 qadence/noise/protocols.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index e67c77a..53ede7a 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -48,8 +48,10 @@ class NoiseHandler:
         protocol: NoiseEnum | list[NoiseEnum],
         options: dict | list[dict] = dict(),
     ) -> None:
-        self.protocol = protocol if isinstance(protocol, list) else [protocol]
-        self.options = options if isinstance(options, list) else [options] * len(self.protocol)
+        # the handler keeps its own lists and options: they may be reused by the caller
+        self.protocol = list(protocol) if isinstance(protocol, list) else [protocol]
+        options = options if isinstance(options, list) else [options] * len(self.protocol)
+        self.options = [dict(o) if isinstance(o, dict) else o for o in options]
         self.verify_all_protocols()
 
     def _verify_single_protocol(self, protocol: NoiseEnum, option: dict) -> None:
-- 
2.43.0


From d1bec4c1d3ce108330b6787f16409df2be50e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:21 +0000
Subject: [PATCH 040/131] fix: noise given as NoiseProtocol.READOUT was neither
 validated nor applied

---
 qadence/noise/protocols.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index 53ede7a..b228ae7 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -49,7 +49,11 @@ class NoiseHandler:
         options: dict | list[dict] = dict(),
     ) -> None:
         # the handler keeps its own lists and options: they may be reused by the caller
-        self.protocol = list(protocol) if isinstance(protocol, list) else [protocol]
+        protocols = protocol if isinstance(protocol, list) else [protocol]
+        self.protocol = [
+            NoiseProtocol.READOUT.INDEPENDENT if p is NoiseProtocol.READOUT else p
+            for p in protocols
+        ]
         options = options if isinstance(options, list) else [options] * len(self.protocol)
         self.options = [dict(o) if isinstance(o, dict) else o for o in options]
         self.verify_all_protocols()
-- 
2.43.0


From f40f6721781f0a2483acfe99d98bc3fcfd6170de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:21 +0000
Subject: [PATCH 041/131] fix: comparing noise handlers with tensors failed and
 mixed up analog and digital protocols

---
 qadence/noise/protocols.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index b228ae7..efb4fd6 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -3,9 +3,24 @@ from __future__ import annotations
 from itertools import compress
 from typing import Any
 
+from torch import Tensor
+
 from qadence.types import NoiseEnum, NoiseProtocol
 
 
+def _equal_options(opt: Any, other: Any) -> bool:
+    """Compare options, whose values can be tensors."""
+    if isinstance(opt, (list, tuple)) and type(opt) is type(other):
+        return len(opt) == len(other) and all(map(_equal_options, opt, other))
+    if isinstance(opt, dict) and isinstance(other, dict):
+        return opt.keys() == other.keys() and all(_equal_options(opt[k], other[k]) for k in opt)
+    if isinstance(opt, Tensor) and isinstance(other, Tensor):
+        return opt.shape == other.shape and bool((opt == other).all())
+    if isinstance(opt, Tensor) or isinstance(other, Tensor):
+        return False
+    return bool(opt == other)
+
+
 class NoiseHandler:
     """A container for multiple sources of noise.
 
@@ -132,7 +147,12 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.protocol == other.protocol and self.options == other.options
+            # protocols of different types can share their name
+            return (
+                self.protocol == other.protocol
+                and [type(p) for p in self.protocol] == [type(p) for p in other.protocol]
+                and _equal_options(self.options, other.options)
+            )
 
         return False
 
-- 
2.43.0


From c37ceb7e35246080064a42d9f314097dc78ce009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:19 +0000
Subject: [PATCH 042/131] fix: noise passed to one call stayed in the model for
 the following calls

---
 qadence/backends/pyqtorch/backend.py | 16 +++++++++++-----
 qadence/model.py                     |  2 --
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8d6853d..6956490 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -63,20 +63,26 @@ def set_readout_noise(circuit: ConvertedCircuit, noise: NoiseHandler) -> None:
 
 def set_block_and_readout_noises(
     circuit: ConvertedCircuit, noise: NoiseHandler | None, config: Configuration
-) -> None:
+) -> ConvertedCircuit:
     """Add noise on blocks and readout on circuit.
 
     We first start by adding noise to the abstract blocks. Then we do a conversion to their
-    native representation. Finally, we add readout.
+    native representation. Finally, we add readout. The native representation of the input
+    circuit is kept, as the noise is meant for the current call only.
 
     Args:
         circuit (ConvertedCircuit): Input circuit.
         noise (NoiseHandler | None): Noise to add.
+
+    Returns:
+        ConvertedCircuit: Circuit with the noise.
     """
     if noise:
         set_noise(circuit, noise)
+        circuit = ConvertedCircuit(circuit.native, circuit.abstract, circuit.original)
         set_noise_abstract_to_native(circuit, config)
         set_readout_noise(circuit, noise)
+    return circuit
 
 
 @dataclass(frozen=True, eq=True)
@@ -188,7 +194,7 @@ class Backend(BackendInterface):
         noise: NoiseHandler | None = None,
         endianness: Endianness = Endianness.BIG,
     ) -> Tensor:
-        set_block_and_readout_noises(circuit, noise, self.config)
+        circuit = set_block_and_readout_noises(circuit, noise, self.config)
         param_circuit = param_values["circuit"] if "circuit" in param_values else param_values
         param_observables = (
             param_values["observables"] if "observables" in param_values else param_values
@@ -233,7 +239,7 @@ class Backend(BackendInterface):
                 "Define your initial state with `batch_size=1`"
             )
 
-        set_block_and_readout_noises(circuit, noise, self.config)
+        circuit = set_block_and_readout_noises(circuit, noise, self.config)
 
         list_expvals = []
         observables = observable if isinstance(observable, list) else [observable]
@@ -304,7 +310,7 @@ class Backend(BackendInterface):
         elif state is not None and pyqify_state:
             n_qubits = circuit.abstract.n_qubits
             state = pyqify(state, n_qubits) if pyqify_state else state
-        set_block_and_readout_noises(circuit, noise, self.config)
+        circuit = set_block_and_readout_noises(circuit, noise, self.config)
         samples: list[Counter] = circuit.native.sample(
             state=state, values=param_values, n_shots=n_shots
         )
diff --git a/qadence/model.py b/qadence/model.py
index fbdc19a..e0f64cc 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -436,8 +436,6 @@ class QuantumModel(nn.Module):
             measurement = self._measurement
         if noise is None:
             noise = self._noise
-        else:
-            self._noise = noise
         if mitigation is None:
             mitigation = self._mitigation
         return self.backend.expectation(
-- 
2.43.0


From faa56340fb2475d39e571b9acada8d3f5dd43b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:47 +0000
Subject: [PATCH 043/131] fix: noise of a backend configuration was set on the
 caller's blocks

---
 qadence/backends/pyqtorch/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 6956490..740cce6 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections import Counter
+from copy import deepcopy
 from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any
@@ -122,6 +123,8 @@ class Backend(BackendInterface):
             circuit = transpile(*passes)(circuit)
         # Setting noise in the circuit.
         if self.config.noise:
+            # the blocks belong to the caller, who may use them in other circuits
+            circuit = deepcopy(circuit)
             set_noise(circuit, self.config.noise)
 
         ops = convert_block(circuit.block, n_qubits=circuit.n_qubits, config=self.config)
-- 
2.43.0


From 166ad07225a60b378aa2764a6b18bcd6c469c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:13 +0000
Subject: [PATCH 044/131] fix: noise given to a model or a call was left on the
 caller's blocks

---
 qadence/execution.py | 7 +++++--
 qadence/model.py     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index 7b3b025..395e0a0 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections import Counter
+from copy import deepcopy
 from functools import singledispatch
 from typing import Any, Union
 
@@ -153,7 +154,8 @@ def _(
     bknd = backend_factory(backend, diff_mode=diff_mode, configuration=configuration)
     conv = bknd.convert(circuit)
     return bknd.sample(
-        circuit=conv.circuit,
+        # backends set the noise on the blocks, which belong to the caller
+        circuit=conv.circuit if noise is None else deepcopy(conv.circuit),
         param_values=conv.embedding_fn(conv.params, values or dict()),
         n_shots=n_shots,
         state=state,
@@ -250,7 +252,8 @@ def _(
 
     def _expectation() -> Tensor:
         return bknd.expectation(
-            circuit=conv.circuit,
+            # backends set the noise on the blocks, which belong to the caller
+            circuit=conv.circuit if noise is None else deepcopy(conv.circuit),
             observable=conv.observable,  # type: ignore[arg-type]
             param_values=conv.embedding_fn(conv.params, values or dict()),
             state=state,
diff --git a/qadence/model.py b/qadence/model.py
index e0f64cc..a18da28 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import os
 from collections import Counter, OrderedDict
+from copy import deepcopy
 from dataclasses import asdict
 from logging import getLogger
 from pathlib import Path
@@ -378,7 +379,8 @@ class QuantumModel(nn.Module):
         if mitigation is None:
             mitigation = self._mitigation
         return self.backend.sample(
-            self._circuit,
+            # backends set the noise on the blocks, which belong to the caller
+            self._circuit if noise is None else deepcopy(self._circuit),
             params,
             n_shots=n_shots,
             state=state,
@@ -439,7 +441,8 @@ class QuantumModel(nn.Module):
         if mitigation is None:
             mitigation = self._mitigation
         return self.backend.expectation(
-            circuit=self._circuit,
+            # backends set the noise on the blocks, which belong to the caller
+            circuit=self._circuit if noise is None else deepcopy(self._circuit),
             observable=observable,
             param_values=params,
             state=state,
-- 
2.43.0


From 06325fbc7b847bdf9be44fb608d4e95579b112c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:17 +0000
Subject: [PATCH 045/131] fix: little endian density matrices were only half
 reordered

---
 qadence/transpile/invert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index c778d79..8d48ee9 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -6,6 +6,7 @@ from functools import singledispatch
 from typing import Any, overload
 
 import numpy as np
+from pyqtorch.utils import DensityMatrix
 from torch import Tensor, tensor
 
 from qadence.blocks import AbstractBlock
@@ -102,10 +103,11 @@ def _(block: AbstractBlock, n_qubits: int = None, in_place: bool = False) -> Abs
 @invert_endianness.register(Tensor)  # type: ignore[attr-defined]
 def _(wf: Tensor) -> Tensor:
     """
-    Inverts the endianness of a wave function.
+    Inverts the endianness of a wave function or density matrix.
 
     Args:
-        wf (Tensor): the target wf as a torch Tensor of shape batch_size X 2**n_qubits
+        wf (Tensor): the target wf as a torch Tensor of shape batch_size X 2**n_qubits,
+            or a density matrix of shape batch_size X 2**n_qubits X 2**n_qubits
 
     Returns:
         The inverted wave function.
@@ -113,6 +115,8 @@ def _(wf: Tensor) -> Tensor:
     n_qubits = int(np.log2(wf.shape[1]))
     ls = list(range(2**n_qubits))
     permute_ind = tensor([int(f"{num:0{n_qubits}b}"[::-1], 2) for num in ls])
+    if isinstance(wf, DensityMatrix):
+        wf = wf[:, :, permute_ind]
     return wf[:, permute_ind]
 
 
-- 
2.43.0


From 3b1f5d380df9cecf122781e7c576a07eeee75aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 046/131] fix: resuming picked checkpoints of other models or
 optimizers in the folder

---
 qadence/ml_tools/callbacks/saveload.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 614f4ba..fc29d22 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -130,7 +130,9 @@ def load_model(
 
     iteration = 0
     if model_ckpt_name == "":
-        model_ckpt_name = get_latest_checkpoint_name(folder, "model", device)
+        model_ckpt_name = get_latest_checkpoint_name(
+            folder, f"model_{type(model).__name__}_ckpt_", device
+        )
 
     try:
         iteration, model_dict = torch.load(
@@ -159,7 +161,9 @@ def load_optimizer(
     device: str | torch.device = "cpu",
 ) -> Optimizer | NGOptimizer:
     if opt_ckpt_name == "":
-        opt_ckpt_name = get_latest_checkpoint_name(folder, "opt", device)
+        opt_ckpt_name = get_latest_checkpoint_name(
+            folder, f"opt_{type(optimizer).__name__}_ckpt_", device
+        )
     if os.path.isfile(folder / opt_ckpt_name):
         if isinstance(optimizer, Optimizer):
             (_, OptType, optimizer_state) = torch.load(folder / opt_ckpt_name, weights_only=False)
-- 
2.43.0


From 3cb249c8b6568884426e0f0a88370517484bac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 047/131] fix: iteration of a checkpoint was used although its
 parameters could not be loaded

---
 qadence/ml_tools/callbacks/saveload.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index fc29d22..6312def 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -135,13 +135,14 @@ def load_model(
         )
 
     try:
-        iteration, model_dict = torch.load(
+        saved_iteration, model_dict = torch.load(
             folder / model_ckpt_name, weights_only=False, *args, **kwargs
         )
         if isinstance(model, (QuantumModel, QNN)):
             model.load_params_from_dict(model_dict)
         elif isinstance(model, Module):
             model.load_state_dict(model_dict, strict=True)
+        iteration = saved_iteration
         # Load model to a specific gpu device if specified
         pattern = re.compile("cuda:\d+$")
         if pattern.search(str(device)):
-- 
2.43.0


From 462b2bab9891a2f861faa28301ff761c08cda5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:51 +0000
Subject: [PATCH 048/131] fix: optimizer state of another iteration was
 restored with a named or interrupted checkpoint

---
 qadence/ml_tools/callbacks/saveload.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 6312def..187c40f 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -55,6 +55,16 @@ def load_checkpoint(
     if not folder.exists():
         folder.mkdir(parents=True)
         return model, optimizer, 0
+    if model_ckpt_name == "":
+        model_ckpt_name = get_latest_checkpoint_name(
+            folder, f"model_{type(model).__name__}_ckpt_", device
+        )
+    if opt_ckpt_name == "":
+        # The optimizer has to be in the state saved together with the model, which is not
+        # the latest one if an older model is loaded or saving was interrupted.
+        suffix = Path(model_ckpt_name).name.partition("_ckpt_")[2]
+        paired_name = f"opt_{type(optimizer).__name__}_ckpt_{suffix}"
+        opt_ckpt_name = Path(model_ckpt_name).parent / paired_name
     model, iter = load_model(folder, model, model_ckpt_name, device)
     optimizer = load_optimizer(folder, optimizer, opt_ckpt_name, device)
     return model, optimizer, iter
-- 
2.43.0


From fae8ab8d66250bdd531894743a9929204e2016c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:16 +0000
Subject: [PATCH 049/131] fix: interruption while writing a checkpoint made
 training restart from scratch

---
 qadence/ml_tools/callbacks/saveload.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 187c40f..c5ae10a 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -106,26 +106,35 @@ def write_checkpoint(
         + f"_device_{device}"
         + ".pt"
     )
+    # Both files are completed under temporary names first, so that an interruption while
+    # writing leaves the previous checkpoints usable.
+    tmp_files: dict[Path, Path] = {}
     try:
         d = (
             model._to_dict(save_params=True)
             if isinstance(model, (QNN, QuantumModel))
             else model.state_dict()
         )
-        torch.save((iteration, d), folder / model_checkpoint_name)
+        tmp_file = folder / f"{model_checkpoint_name}.tmp"
+        torch.save((iteration, d), tmp_file)
+        tmp_files[tmp_file] = folder / model_checkpoint_name
         logger.info(f"Writing {type(model).__name__} checkpoint {model_checkpoint_name}")
     except Exception as e:
         logger.exception(e)
     try:
+        tmp_file = folder / f"{opt_checkpoint_name}.tmp"
         if isinstance(optimizer, Optimizer):
-            torch.save(
-                (iteration, type(optimizer), optimizer.state_dict()), folder / opt_checkpoint_name
-            )
+            torch.save((iteration, type(optimizer), optimizer.state_dict()), tmp_file)
+            tmp_files[tmp_file] = folder / opt_checkpoint_name
         elif isinstance(optimizer, NGOptimizer):
-            optimizer.dump(folder / opt_checkpoint_name)
+            optimizer.dump(tmp_file)
+            tmp_files[tmp_file] = folder / opt_checkpoint_name
         logger.info(f"Writing {type(optimizer).__name__} to checkpoint {opt_checkpoint_name}")
     except Exception as e:
         logger.exception(e)
+    # The model comes last: a checkpoint exists once its model file does.
+    for tmp_file, file in reversed(tmp_files.items()):
+        os.replace(tmp_file, file)
 
 
 def load_model(
-- 
2.43.0


From 334423d2777aaa593f7c8c47d5908ec701e94f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:16 +0000
Subject: [PATCH 050/131] fix: models could not be loaded from the training
 checkpoints in a folder

---
 qadence/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index a18da28..a6828f2 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -627,6 +627,9 @@ class QuantumModel(nn.Module):
 
         try:
             qm_pt = torch.load(file_path, map_location=map_location, weights_only=False)
+            if isinstance(qm_pt, tuple):
+                # training checkpoints hold the iteration and the model
+                _, qm_pt = qm_pt
         except Exception as e:
             logger.error(f"Unable to load QuantumModel due to {e}")
         return cls._from_dict(qm_pt, as_torch)
-- 
2.43.0


From 48f117fb17672d65e4d10f590c9ac00b817dbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:05 +0000
Subject: [PATCH 051/131] fix: runs started within the same second shared their
 subfolder

---
 qadence/ml_tools/train_utils/config_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/ml_tools/train_utils/config_manager.py b/qadence/ml_tools/train_utils/config_manager.py
index 44baf52..b2219cc 100644
--- a/qadence/ml_tools/train_utils/config_manager.py
+++ b/qadence/ml_tools/train_utils/config_manager.py
@@ -102,6 +102,10 @@ class ConfigManager:
         pid_hex = hex(os.getpid())[2:]
         run_id = len(self.config._subfolders) + 1
         subfolder_name = f"{run_id}_{timestamp}_{pid_hex}"
+        while (Path(self.config.root_folder) / subfolder_name).exists():
+            # e.g. another run started within the same second
+            run_id += 1
+            subfolder_name = f"{run_id}_{timestamp}_{pid_hex}"
         self.config._subfolders.append(str(subfolder_name))
         self._added_new_subfolder = True
 
-- 
2.43.0


From 3c086dd383467ac79ae9662541c7666c8be930d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 052/131] fix: testing ignored the trainer's test data and used
 the number of training batches

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0


From 7fbce85aef839f4fb5cae29175557c43fec184c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 053/131] fix: a second fit reported and saved its start under
 the last epoch of the first

---
 qadence/ml_tools/callbacks/callbackmanager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/callbacks/callbackmanager.py b/qadence/ml_tools/callbacks/callbackmanager.py
index ebbb621..6c873b1 100644
--- a/qadence/ml_tools/callbacks/callbackmanager.py
+++ b/qadence/ml_tools/callbacks/callbackmanager.py
@@ -176,6 +176,7 @@ class CallbacksManager:
         # Clear all handlers from the logger
         self.initialize_callbacks()
 
+        trainer.current_epoch = trainer.global_step
         trainer.opt_result = OptimizeResult(trainer.global_step, trainer.model, trainer.optimizer)
         trainer.is_last_iteration = False
 
-- 
2.43.0


From 6c6b5c32c9304c5e8fcaaf3697edec47433ec89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 054/131] fix: cosine annealing compounded instead of starting
 from the initial learning rate

---
 qadence/ml_tools/callbacks/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..bc766a1 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,7 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From b29f3c340fc68981ff9dc559a6b494282d377de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 055/131] fix: overlap methods other than exact failed with
 feature parameters in only one of the circuits

---
 qadence/overlap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..805a4db 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -397,6 +397,10 @@ class Overlap(QuantumModel):
 
         elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
+                if self.method not in [OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON]:
+                    # bra and ket are part of the same circuits, which need both their values
+                    bra_param_values = {**ket_param_values, **bra_param_values}
+                    ket_param_values = bra_param_values
                 param_values = {"bra": bra_param_values, "ket": ket_param_values}
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
-- 
2.43.0


From 54c152bcf5105e008bd46dbfaa6cd08e6e8752a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 056/131] fix: Jensen-Shannon overlap dropped batch elements
 when one circuit has no feature parameter

---
 qadence/overlap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 805a4db..6082ebe 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -181,6 +181,10 @@ def overlap_jensen_shannon(bras: list[Counter], kets: list[Counter]) -> Tensor:
     Returns:
         Tensor: overlap tensor containing values of overlap of each bra with each ket
     """
+    # a circuit without feature parameters has one set of counts for the whole batch
+    batch_size = max(len(bras), len(kets))
+    bras = bras * batch_size if len(bras) == 1 else bras
+    kets = kets * batch_size if len(kets) == 1 else kets
     return 1 - torch.tensor([js_divergence(p, q) for p, q in zip(bras, kets)])
 
 
-- 
2.43.0


From 6b528375e1d180b9af7f37d7eaa5e600d956a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 057/131] fix: parameters shared by the two models of an
 overlap were trained and set separately

---
 qadence/overlap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 6082ebe..48fa449 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -343,6 +343,11 @@ class Overlap(QuantumModel):
                 configuration=configuration,
             )
             self.ket_feat_param_names = set([inp.name for inp in self.ket_model.inputs])
+
+            # a variational parameter of both models is a single parameter of the overlap
+            for name, param in self._params.items():
+                if param.requires_grad and name in self.ket_model._params:
+                    self.ket_model._params[name] = param
         else:
             self.ket_model = None  # type: ignore [assignment]
             self.ket_feat_param_names = set([])
-- 
2.43.0


From 97836b4917ffbc2710cec2cc702b8e62178ef24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:13 +0000
Subject: [PATCH 058/131] fix: measurement protocols mis-estimated or rejected
 observables other than plain Pauli strings

---
 .../torch/differentiable_expectation.py       |   4 +-
 qadence/measurements/samples.py               |   6 +-
 qadence/measurements/shadow.py                |  13 +-
 qadence/measurements/tomography.py            |   8 +-
 qadence/measurements/utils.py                 | 130 ++++++++++++++++--
 5 files changed, 132 insertions(+), 29 deletions(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index 009bf82..1b5fc41 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -133,7 +133,7 @@ class DifferentiableExpectation:
             expectation_fn = self.measurement.get_measurement_fn()
             expectations = expectation_fn(
                 circuit=self.circuit.original,
-                observables=[obs.original for obs in self.observable],
+                observables=[obs.abstract for obs in self.observable],
                 param_values=self.param_values,
                 options=self.measurement.options,
                 state=self.state,
@@ -211,7 +211,7 @@ class DifferentiableExpectation:
             expectation_fn = partial(
                 self.measurement.get_measurement_fn(),
                 circuit=self.circuit.original,
-                observables=[obs.original for obs in self.observable],
+                observables=[obs.abstract for obs in self.observable],
                 options=self.measurement.options,
                 state=self.state,
                 noise=self.noise,
diff --git a/qadence/measurements/samples.py b/qadence/measurements/samples.py
index 02275c6..788c20a 100644
--- a/qadence/measurements/samples.py
+++ b/qadence/measurements/samples.py
@@ -6,8 +6,7 @@ from typing import List
 from torch import Tensor
 
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
-from qadence.measurements.utils import pauli_z_expectation
+from qadence.measurements.utils import pauli_decomposition, pauli_z_expectation
 
 
 def compute_expectation(
@@ -30,9 +29,8 @@ def compute_expectation(
     expectation_vals = []
 
     for obs in observable:
-        decomposition = unroll_block_with_scaling(obs)
         if not obs._is_diag_pauli or obs.is_identity:
             raise TypeError("observable provided is not in the Z basis")
-        expectation_vals.append(pauli_z_expectation(decomposition, samples))
+        expectation_vals.append(pauli_z_expectation(pauli_decomposition(obs), samples))
 
     return expectation_vals
diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..f8341b1 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,7 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
+from qadence.measurements.utils import get_qubit_indices_for_op, pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
@@ -251,7 +251,7 @@ def estimations(
     unitaries_ids, batch_shadow_samples = classical_shadow(
         shadow_size=N,
         circuit=circuit,
-        param_values=param_values,
+        param_values=param_values.get("circuit", param_values),
         state=state,
         backend=backend,
         noise=noise,
@@ -259,11 +259,11 @@ def estimations(
     )
     estimations = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        decomposition = pauli_decomposition(observable, param_values)
         batch_estimations = []
-        for batch in batch_shadow_samples:
+        for i, batch in enumerate(batch_shadow_samples):
             pauli_term_estimations = []
-            for pauli_term in pauli_decomposition:
+            for pauli_term in decomposition:
                 # Get the estimators for the current Pauli term.
                 # This is a tensor<float> of size K.
                 estimation = estimators(
@@ -275,7 +275,8 @@ def estimations(
                 )
                 # Compute the median of means for the current Pauli term.
                 # Weigh the median by the Pauli term scaling.
-                pauli_term_estimations.append(torch.median(estimation) * pauli_term[1])
+                scale = torch.as_tensor(pauli_term[1]).reshape(-1)
+                pauli_term_estimations.append(torch.median(estimation) * scale[i % len(scale)])
             # Sum the expectations for each Pauli term to get the expectation for the
             # current batch.
             batch_estimations.append(sum(pauli_term_estimations))
diff --git a/qadence/measurements/tomography.py b/qadence/measurements/tomography.py
index f7398de..a55a203 100644
--- a/qadence/measurements/tomography.py
+++ b/qadence/measurements/tomography.py
@@ -6,10 +6,9 @@ from torch import Tensor
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import iterate_pauli_decomposition
+from qadence.measurements.utils import iterate_pauli_decomposition, pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.utils import Endianness
 
@@ -53,12 +52,11 @@ def compute_expectation(
         raise KeyError("Tomography protocol requires a 'n_shots' kwarg of type 'int'.")
     estimated_values = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
         estimated_values.append(
             iterate_pauli_decomposition(
                 circuit=circuit,
                 param_values=param_values,
-                pauli_decomposition=pauli_decomposition,
+                pauli_decomposition=pauli_decomposition(observable, param_values),
                 n_shots=n_shots,
                 state=state,
                 backend=backend,
@@ -66,4 +64,4 @@ def compute_expectation(
                 endianness=endianness,
             )
         )
-    return torch.transpose(torch.vstack(estimated_values), 1, 0)
+    return torch.transpose(torch.stack(torch.broadcast_tensors(*estimated_values)), 1, 0)
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..d613609 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -11,14 +11,117 @@ from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
-from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
+from qadence.backends.utils import infer_batchsize
+from qadence.blocks import (
+    AbstractBlock,
+    AddBlock,
+    ChainBlock,
+    KronBlock,
+    PrimitiveBlock,
+    ScaleBlock,
+    chain,
+    kron,
+)
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y
-from qadence.parameters import evaluate
+from qadence.operations import H, I, N, SDagger, X, Y, Z, Zero
+from qadence.parameters import evaluate, stringify
 from qadence.utils import Endianness
 
+# product of two different Pauli operators: phase and resulting operator
+PAULI_PRODUCTS = {
+    (X, Y): (1j, Z),
+    (Y, Z): (1j, X),
+    (Z, X): (1j, Y),
+    (Y, X): (-1j, Z),
+    (Z, Y): (-1j, X),
+    (X, Z): (-1j, Y),
+}
+
+
+def _multiply_words(left: tuple, right: tuple) -> tuple[complex, tuple]:
+    """Product of two Pauli words given as tuples of (qubit, operator)."""
+    phase: complex = 1.0
+    word = dict(left)
+    for qubit, op in right:
+        if qubit not in word:
+            word[qubit] = op
+        elif word[qubit] == op:
+            del word[qubit]
+        else:
+            factor, word[qubit] = PAULI_PRODUCTS[(word[qubit], op)]
+            phase = phase * factor
+    return phase, tuple(sorted(word.items(), key=lambda item: item[0]))
+
+
+def _pauli_words(block: AbstractBlock, param_values: dict) -> dict:
+    """Coefficients of the Pauli words whose sum is the given block."""
+    if isinstance(block, (X, Y, Z)):
+        return {((block.qubit_support[0], type(block)),): 1.0}
+    elif isinstance(block, N):
+        return {(): 0.5, ((block.qubit_support[0], Z),): -0.5}
+    elif isinstance(block, I):
+        return {(): 1.0}
+    elif isinstance(block, Zero):
+        return {(): 0.0}
+    elif isinstance(block, ScaleBlock):
+        ((uuid, expr),) = block.parameters.items()
+        # values of the parameters are either given by gate or by expression
+        scale = param_values.get(uuid, param_values.get(stringify(expr), None))
+        scale = evaluate(expr) if scale is None or expr.is_number else scale
+        return {
+            word: coeff * scale for word, coeff in _pauli_words(block.block, param_values).items()
+        }
+    elif isinstance(block, AddBlock):
+        words: dict = {}
+        for b in block.blocks:
+            for word, coeff in _pauli_words(b, param_values).items():
+                words[word] = words.get(word, 0.0) + coeff
+        return words
+    elif isinstance(block, (ChainBlock, KronBlock)):
+        product: dict = {(): 1.0}
+        for b in block.blocks:
+            factors = _pauli_words(b, param_values)
+            terms: dict = {}
+            for left, left_coeff in product.items():
+                for right, right_coeff in factors.items():
+                    phase, word = _multiply_words(left, right)
+                    coeff = phase * left_coeff * right_coeff
+                    terms[word] = terms.get(word, 0.0) + coeff
+            product = terms
+        return product
+    raise TypeError(f"Cannot measure the observable {type(block)}: it is not made of Paulis.")
+
+
+def pauli_decomposition(
+    block: AbstractBlock, param_values: dict | None = None
+) -> List[Tuple[AbstractBlock, float | Tensor]]:
+    """Write an observable as a sum of distinct Pauli words.
+
+    Args:
+        block: The observable.
+        param_values: Already embedded values of the observable's parameters.
+
+    Returns: A list of Pauli words, either a single Pauli, a kron of Paulis on different qubits
+        or the identity, and their coefficients.
+    """
+    param_values = param_values or dict()
+    param_values = param_values.get("observables", param_values)
+    terms: list = []
+    for word, coeff in _pauli_words(block, param_values).items():
+        if not isinstance(coeff, Tensor):
+            coeff = complex(coeff).real
+        elif coeff.is_complex():
+            coeff = coeff.real
+        ops = [op(qubit) for qubit, op in word] or [I(block.qubit_support[0])]
+        terms.append((ops[0] if len(ops) == 1 else kron(*ops), coeff))
+    return terms
+
+
+def _coefficient(coeff: Basic | float | Tensor) -> float | Tensor:
+    return evaluate(coeff) if isinstance(coeff, Basic) else coeff
+
 
 def get_qubit_indices_for_op(
     pauli_term: Tuple[AbstractBlock, Basic], op: PrimitiveBlock | None = None
@@ -93,10 +196,12 @@ def pauli_z_expectation(
 
     estimated_values = []
     for pauli_term in pauli_decomposition:
-        support = get_qubit_indices_for_op(pauli_term)
-        estim_values = empirical_average(samples=samples, support=support)
-        # TODO: support for parametric observables to be tested
-        estimated_values.append(estim_values * evaluate(pauli_term[1]))
+        if pauli_term[0].is_identity:
+            estim_values = torch.ones(len(samples))
+        else:
+            support = get_qubit_indices_for_op(pauli_term)
+            estim_values = empirical_average(samples=samples, support=support)
+        estimated_values.append(estim_values * _coefficient(pauli_term[1]))
     res = torch.sum(torch.stack(estimated_values), axis=0)
     return res
 
@@ -147,10 +252,12 @@ def iterate_pauli_decomposition(
     """
 
     estimated_values = []
+    param_values = param_values.get("circuit", param_values)  # type: ignore[assignment]
+    batch_size = infer_batchsize(param_values)
 
     for pauli_term in pauli_decomposition:
         if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
+            estimated_values.append(torch.ones(batch_size) * _coefficient(pauli_term[1]))
         else:
             # Get the full qubit support for the Pauli term.
             # Note: duplicates must be kept here to allow for
@@ -172,9 +279,8 @@ def iterate_pauli_decomposition(
                 endianness=endianness,
             )
             estim_values = empirical_average(samples=samples, support=support)
-            # TODO: support for parametric observables to be tested
-            estimated_values.append(estim_values * evaluate(pauli_term[1]))
-    res = torch.sum(torch.stack(estimated_values), axis=0)
+            estimated_values.append(estim_values * _coefficient(pauli_term[1]))
+    res = torch.sum(torch.stack(torch.broadcast_tensors(*estimated_values)), axis=0)
     # Allow for automatic differentiation.
-    res.requires_grad = True
+    res.requires_grad_(True)
     return res
-- 
2.43.0


From cc34eab7eef2205bc8f5c7716b9f243c00b4a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:13 +0000
Subject: [PATCH 059/131] fix: measurement protocols with parameter shift rules
 ignored the backend and failed for analog circuits

---
 qadence/engines/torch/differentiable_expectation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index 1b5fc41..65f6164 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -132,7 +132,7 @@ class DifferentiableExpectation:
         if self.measurement:
             expectation_fn = self.measurement.get_measurement_fn()
             expectations = expectation_fn(
-                circuit=self.circuit.original,
+                circuit=self.circuit.abstract,
                 observables=[obs.abstract for obs in self.observable],
                 param_values=self.param_values,
                 options=self.measurement.options,
@@ -210,10 +210,11 @@ class DifferentiableExpectation:
         if self.measurement is not None:
             expectation_fn = partial(
                 self.measurement.get_measurement_fn(),
-                circuit=self.circuit.original,
+                circuit=self.circuit.abstract,
                 observables=[obs.abstract for obs in self.observable],
                 options=self.measurement.options,
                 state=self.state,
+                backend=self.backend,
                 noise=self.noise,
                 endianness=self.endianness,
             )
-- 
2.43.0


From 351b259f6693e44f1ecf35e86ff935a1abd5f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 060/131] fix: expectation ignored the measurement protocol
 without a differentiation mode

---
 qadence/execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index 395e0a0..9dbe177 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -247,7 +247,10 @@ def _(
     configuration: Union[BackendConfiguration, dict, None] = None,
 ) -> Tensor:
     observable = observable if isinstance(observable, list) else [observable]
-    bknd = backend_factory(backend, diff_mode=diff_mode, configuration=configuration)
+    # measurement protocols are run by the differentiable backends
+    measured = measurement is not None and backend == BackendName.PYQTORCH
+    engine_mode = DiffMode.AD if diff_mode is None and measured else diff_mode
+    bknd = backend_factory(backend, diff_mode=engine_mode, configuration=configuration)
     conv = bknd.convert(circuit, observable)
 
     def _expectation() -> Tensor:
-- 
2.43.0


From fd63f2f3978787508217bfebc3222254642c6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 061/131] fix: shadows of a given size required an accuracy and
 missing options were not reported

---
 qadence/measurements/shadow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index f8341b1..00ec2d3 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -234,7 +234,7 @@ def estimations(
     observables: list[AbstractBlock],
     param_values: dict,
     shadow_size: int | None = None,
-    accuracy: float = 0.1,
+    accuracy: float | None = 0.1,
     confidence: float = 0.1,
     state: Tensor | None = None,
     backend: Backend | DifferentiableBackend = PyQBackend(),
@@ -245,6 +245,8 @@ def estimations(
     # N is the estimated shot budget for the classical shadow to
     # achieve desired accuracy for all L = len(observables) within 1 - confidence probablity.
     # K is the size of the shadow partition.
+    # The accuracy only sets the budget, which may be given by the shadow size instead.
+    accuracy = 0.1 if accuracy is None else accuracy
     N, K = number_of_samples(observables=observables, accuracy=accuracy, confidence=confidence)
     if shadow_size is not None:
         N = shadow_size
@@ -322,13 +324,13 @@ def compute_expectation(
     shadow_size = options.get("shadow_size", None)
     accuracy = options.get("accuracy", None)
     if shadow_size is None and accuracy is None:
-        KeyError(
+        raise KeyError(
             "Shadow protocol requires either an option"
             "'shadow_size' of type 'int' or 'accuracy' of type 'float'."
         )
     confidence = options.get("confidence", None)
     if confidence is None:
-        KeyError("Shadow protocol requires a 'confidence' kwarg of type 'float'.")
+        raise KeyError("Shadow protocol requires a 'confidence' kwarg of type 'float'.")
     return estimations(
         circuit=circuit,
         observables=observables,
-- 
2.43.0


From 08eac12d92a63763042564e3bc24a99358d0d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 062/131] fix: shadow budget ignored number operators

---
 qadence/measurements/shadow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 00ec2d3..600227f 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -15,7 +15,7 @@ from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.measurements.utils import get_qubit_indices_for_op, pauli_decomposition
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y, Z
+from qadence.operations import H, I, N, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
 
 pauli_gates = [X, Y, Z]
@@ -49,14 +49,14 @@ def _max_observable_weight(observable: AbstractBlock) -> int:
         weight = 0
         block = pauli_term[0]
         if isinstance(block, PrimitiveBlock):
-            if isinstance(block, (X, Y, Z)):
+            if isinstance(block, (X, Y, Z, N)):
                 weight += 1
             weights.append(weight)
         else:
             pauli_blocks = get_pauli_blocks(block=block)
             weight = 0
             for block in pauli_blocks:
-                if isinstance(block, (X, Y, Z)):
+                if isinstance(block, (X, Y, Z, N)):
                     weight += 1
             weights.append(weight)
     return max(weights)
-- 
2.43.0


From fcae76c139f8769ba7fbf7be2c0999777c55f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 063/131] fix: changing the trainability of parameters reset
 all others to their initial values

---
 qadence/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index a6828f2..9a75c6a 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -208,6 +208,12 @@ class QuantumModel(nn.Module):
             current_config = self.backend.backend.config
         BackendConfiguration.change_config(current_config, new_config)
 
+    def _keep_values(self, params: OrderedDict) -> None:
+        """Set the parameters which also are in `params` to their values there."""
+        for name, value in params.items():
+            if name in self._params:
+                self._params[name].data = value
+
     def set_as_variational(self, params: list[str] = list()) -> None:
         """Set as variational the list of names in `params`.
 
@@ -226,6 +232,7 @@ class QuantumModel(nn.Module):
         else:
             observable = self._observable  # type: ignore[assignment]
         set_as_variational(circuit.block, params)
+        current_params = self.params
         conv = self.backend.convert(circuit, observable)
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
@@ -244,6 +251,7 @@ class QuantumModel(nn.Module):
                     for key, val in merge_separate_params(conv.params).items()
                 }
             )
+        self._keep_values(current_params)
 
     def set_as_fixed(self, params: list[str] = list()) -> None:
         """Set as fixed the list of names in `params`.
@@ -263,6 +271,7 @@ class QuantumModel(nn.Module):
         else:
             observable = self._observable  # type: ignore[assignment]
         set_as_fixed(circuit.block, params)
+        current_params = self.params
         conv = self.backend.convert(circuit, observable)
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
@@ -281,6 +290,7 @@ class QuantumModel(nn.Module):
                     for key, val in merge_separate_params(conv.params).items()
                 }
             )
+        self._keep_values(current_params)
 
     def circuit(self, circuit: QuantumCircuit) -> ConvertedCircuit:
         """Get backend-converted circuit.
-- 
2.43.0


From aed10c1b1cd304859ee1ae9aa95288ab905354f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 064/131] fix: QNN.expectation ignored the given observable and
 mitigation

---
 qadence/ml_tools/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index a32d4d3..e89ff89 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
-            endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
+            endianness=endianness,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 64a1184b362198ff603a6d0fbe9c8645743271d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 065/131] fix: models built from the dictionary of another one
 shared its parameters

---
 qadence/ml_tools/models.py | 4 +++-
 qadence/model.py           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index e89ff89..6850847 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -496,7 +496,9 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
+                    conv_pd[n] = nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index 9a75c6a..250d3d7 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -540,7 +540,9 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
+                    conv_pd[n] = torch.nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
-- 
2.43.0


From 47a7d22c0b765b835d5a5bbe42fa624ae08e79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 066/131] fix: strict loading of parameters ignored those that
 do not fit

---
 qadence/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index 250d3d7..8d694dd 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -593,6 +593,8 @@ class QuantumModel(nn.Module):
                         torch.nn.Parameter(param, requires_grad=param.requires_grad)
                     )
             except Exception as e:
+                if strict:
+                    raise RuntimeError(f"Unable to load parameter {n} from dictionary.") from e
                 logger.warning(f"Unable to load parameter {n} from dictionary due to {e}.")
 
     def save(
-- 
2.43.0


From 47dc50c6c42fb1cf7292a13978fde1cf6a037729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 067/131] fix: backends sharing a configuration changed each
 other's parameter naming

---
 qadence/backends/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/backends/api.py b/qadence/backends/api.py
index d6d3de7..58c5362 100644
--- a/qadence/backends/api.py
+++ b/qadence/backends/api.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import copy
+
 from qadence.backend import Backend, BackendConfiguration
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.extensions import (
@@ -39,6 +41,8 @@ def backend_factory(
                     f"Given config class '{type(configuration)}' does not match the backend",
                     f" class: '{BackendCls}'. Expected: '{type(expected_cfg)}.'",
                 )
+            # the settings for the diff mode must not leak to other users of the configuration
+            configuration = copy(configuration)
 
         # Instantiate the backend
         backend_inst = BackendCls(  # type: ignore[operator]
-- 
2.43.0


From 00976c6a94dceccd36d93a7c90bdb207b31942d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:14 +0000
Subject: [PATCH 068/131] fix: parameter shift rules failed for scaled
 observables given to the call

---
 qadence/engines/torch/differentiable_expectation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index 65f6164..04a06e8 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -235,6 +235,10 @@ class DifferentiableExpectation:
             self.circuit.abstract, [o.abstract for o in self.observable], psr_fn, **psr_args
         )
 
+        # The constants of an observable that was not converted with the circuit
+        # are part of its native form and have no value.
+        param_to_psr = {k: rule for k, rule in param_to_psr.items() if k in self.param_values}
+
         # Select the subset of all parameters for which PSR apply
         # which are from the circuit only.
         self.param_values = {k: self.param_values[k] for k in param_to_psr.keys()}
-- 
2.43.0


From 01fc0e7e6151cdbd27019d42570001cf46b83b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 069/131] fix: rounding of mitigated counts moved or lost
 counts of other outcomes

---
 qadence/mitigations/readout.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..15a5d39 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -52,17 +52,13 @@ def mle_solve(p_raw: npt.NDArray) -> npt.NDArray:
 
 
 def renormalize_counts(corrected_counts: npt.NDArray, n_shots: int) -> npt.NDArray:
-    """Renormalize counts rounding discrepancies."""
-    total_counts = sum(corrected_counts)
-    if total_counts != n_shots:
-        counts_diff = total_counts - n_shots
-        corrected_counts -= counts_diff
-        corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
-        sum_corrected_counts = sum(corrected_counts)
-
-        renormalization_factor = n_shots / sum_corrected_counts
-        corrected_counts = np.rint(corrected_counts * renormalization_factor).astype(int)
-    return corrected_counts
+    """Round counts to integers adding up to `n_shots`, largest remainders first."""
+    corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
+    corrected_counts = corrected_counts * (n_shots / sum(corrected_counts))
+    counts = np.floor(corrected_counts).astype(int)
+    missing = n_shots - sum(counts)
+    counts[np.argsort(counts - corrected_counts, kind="stable")[:missing]] += 1
+    return counts
 
 
 def matrix_inv(K: npt.NDArray) -> npt.NDArray:
@@ -144,16 +140,7 @@ def mitigation_minimization(
                 f"Requested method {optimization_type} does not match supported protocols."
             )
 
-        corrected_counts = np.rint(p_corr * n_shots).astype(int)
-
-        # Renormalize if total counts differs from n_shots.
-        corrected_counts = renormalize_counts(corrected_counts=corrected_counts, n_shots=n_shots)
-        # At this point, the count should be off by at most 2, added or substracted to/from the
-        # max count.
-        if sum(corrected_counts) != n_shots:
-            count_diff = sum(corrected_counts) - n_shots
-            max_count_bs = np.argmax(corrected_counts)
-            corrected_counts[max_count_bs] -= count_diff
+        corrected_counts = renormalize_counts(corrected_counts=p_corr * n_shots, n_shots=n_shots)
         assert (
             corrected_counts.sum() == n_shots
         ), f"Corrected counts sum: {corrected_counts.sum()}, n_shots: {n_shots}"
-- 
2.43.0


From 6f9e9b8a4af75ca7a8dfbf019ea1138d5b9c602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 070/131] fix: readout mitigation used uninitialised confusion
 matrices for error probabilities

---
 qadence/mitigations/readout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index 15a5d39..329d32b 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -92,7 +92,8 @@ def mitigation_minimization(
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
     n_shots = sum(samples[0].values())
     noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
+    if getattr(readout_noise, "_compute_confusion", False):
+        # the confusion matrices are only placeholders until the noise is drawn
         readout_noise.create_noise_matrix(n_shots)
         noise_matrices = readout_noise.confusion_matrix
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
-- 
2.43.0


From 8ae07480825060e7394193df09fafbfaf413abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:04 +0000
Subject: [PATCH 071/131] fix: readout mitigation of little endian samples used
 the confusion matrices of other qubits

---
 qadence/backends/pulser/backend.py   | 8 ++++----
 qadence/backends/pyqtorch/backend.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index ed43ee8..87094b3 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -306,16 +306,16 @@ class Backend(BackendInterface):
             sequence.measure()
             sample = simulate_sequence(sequence, self.config, state, n_shots=n_shots)
             samples.append(sample)
-        if endianness != self.native_endianness:
-            from qadence.transpile import invert_endianness
-
-            samples = invert_endianness(samples)
         if mitigation is not None:
             logger.warning(
                 "Mitigation protocol is deprecated. Use qadence-protocols instead.",
             )
             assert noise
             samples = apply_mitigation(noise=noise, mitigation=mitigation, samples=samples)
+        if endianness != self.native_endianness:
+            from qadence.transpile import invert_endianness
+
+            samples = invert_endianness(samples)
         return samples
 
     def expectation(
diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 740cce6..6bcbefb 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -317,13 +317,13 @@ class Backend(BackendInterface):
         samples: list[Counter] = circuit.native.sample(
             state=state, values=param_values, n_shots=n_shots
         )
-        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         if mitigation is not None:
             logger.warning(
                 "Mitigation protocol is deprecated. Use qadence-protocols instead.",
             )
             assert noise
             samples = apply_mitigation(noise=noise, mitigation=mitigation, samples=samples)
+        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         return samples
 
     def assign_parameters(self, circuit: ConvertedCircuit, param_values: ParamDictType) -> Any:
-- 
2.43.0


From c3acabe7f5f06310e82acc1385fe3995bde2aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:04 +0000
Subject: [PATCH 072/131] fix: mitigations with options could not be restored
 from their dictionary

---
 qadence/mitigations/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..d3d0bad 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From bd8ae8d49c9a92ce8e63f81865d71a63e55d338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 073/131] fix: serialised models lost their mitigation protocol

---
 qadence/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index 8d694dd..0c30ae1 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -495,6 +495,9 @@ class QuantumModel(nn.Module):
                     self._measurement._to_dict() if self._measurement is not None else dict()
                 ),
                 "noise": self._noise._to_dict() if self._noise is not None else dict(),
+                "mitigation": (
+                    self._mitigation._to_dict() if self._mitigation is not None else dict()
+                ),
                 "backend_configuration": asdict(self.backend.backend.config),  # type: ignore
             }
             param_dict_conv = {}
@@ -536,6 +539,8 @@ class QuantumModel(nn.Module):
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
             )
 
+            qm._mitigation = Mitigations._from_dict(qm_dict.get("mitigation", dict()))
+
             if as_torch:
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
-- 
2.43.0


From 9800c6afe6f9a8cb683fd301d9d360efaf107168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 074/131] fix: ansaetze without entanglers in some layer could
 not be built

---
 qadence/constructors/ala.py |  6 +++---
 qadence/constructors/hea.py | 21 +++++++++++----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/qadence/constructors/ala.py b/qadence/constructors/ala.py
index e7b5578..fdab21a 100644
--- a/qadence/constructors/ala.py
+++ b/qadence/constructors/ala.py
@@ -170,7 +170,7 @@ def _entanglers_ala_block_digital(
     for d in range(depth):
         start_i = 0 if not d % 2 else -m_block_qubits // 2
         ents = [
-            kron(
+            [
                 _entangler(
                     control=support[i + j],
                     target=support[i + j + 1],
@@ -180,11 +180,11 @@ def _entanglers_ala_block_digital(
                 for j in range(start_j, m_block_qubits, 2)
                 for i in range(start_i, n_qubits, m_block_qubits)
                 if i + j + 1 < n_qubits and j + 1 < m_block_qubits and i + j >= 0
-            )
+            ]
             for start_j in [i for i in range(2) if m_block_qubits > 2 or i == 0]
         ]
 
-        ent_list.append(chain(*ents))
+        ent_list.append(chain(*(kron(*layer) for layer in ents if layer)))
     return ent_list
 
 
diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index f12361b..09ff8bd 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -186,18 +186,19 @@ def _entanglers_digital(
     ent_list: list[AbstractBlock] = []
     for d in range(depth):
         ents = []
-        ents.append(
-            kron(
-                _entangler(
-                    control=support[n],
-                    target=support[n + 1],
-                    param_str=param_prefix + f"_ent_{next(iterator)}",
-                    op=entangler,
+        if n_qubits > 1:
+            ents.append(
+                kron(
+                    _entangler(
+                        control=support[n],
+                        target=support[n + 1],
+                        param_str=param_prefix + f"_ent_{next(iterator)}",
+                        op=entangler,
+                    )
+                    for n in range(n_qubits)
+                    if not n % 2 and n < n_qubits - 1
                 )
-                for n in range(n_qubits)
-                if not n % 2 and n < n_qubits - 1
             )
-        )
         if n_qubits > 2:
             ents.append(
                 kron(
-- 
2.43.0


From 9017824f70e84d5fa276b1334b8cd7a64c29eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 075/131] fix: periodic hardware efficient ansatz did not close
 the ring for odd numbers of qubits

---
 qadence/constructors/hea.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index 09ff8bd..99dbe4e 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -212,6 +212,15 @@ def _entanglers_digital(
                     if n % 2
                 )
             )
+            if periodic and n_qubits % 2:
+                ents.append(
+                    _entangler(
+                        control=support[n_qubits - 1],
+                        target=support[0],
+                        param_str=param_prefix + f"_ent_{next(iterator)}",
+                        op=entangler,
+                    )
+                )
         ent_list.append(chain(*ents))
     return ent_list
 
-- 
2.43.0


From 85942da21d4ee9ebb2bac6c917c683d32a3610a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 076/131] fix: deep identity initialised ansaetze used the same
 parameter names in different layers

---
 qadence/constructors/iia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/constructors/iia.py b/qadence/constructors/iia.py
index 889d92f..4b55c9c 100644
--- a/qadence/constructors/iia.py
+++ b/qadence/constructors/iia.py
@@ -84,7 +84,7 @@ def _rotations(
                 gate(
                     target=n,  # type: ignore [call-arg]
                     parameter=Parameter(  # type: ignore [call-arg]
-                        name=param_str + f"_{layer}{n + n_qubits * idx(i)}",
+                        name=param_str + f"_{layer}_{n + n_qubits * idx(i)}",
                         value=values[n + n_qubits * idx(i)],
                         trainable=True,
                     ),
@@ -166,7 +166,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=n + 1,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits - 1)
@@ -178,7 +178,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=(n + 1) % n_qubits,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits)
@@ -212,7 +212,7 @@ def identity_initialized_ansatz(
             kron(
                 RX(
                     target=n,
-                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}{n}", value=gamma[n]),
+                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}_{n}", value=gamma[n]),
                 )
                 for n in range(n_qubits)
             )
-- 
2.43.0


From 8935b3ae668c2e25af061fc5589e5b435f54179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 077/131] fix: digital-analog ansatz on given qubits entangled
 the first ones instead

---
 qadence/constructors/hea.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index 99dbe4e..b916dc9 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -6,6 +6,7 @@ from typing import Any, Type, Union
 from qadence.blocks import AbstractBlock, block_is_qubit_hamiltonian, chain, kron, tag
 from qadence.constructors.hamiltonians import hamiltonian_factory
 from qadence.operations import CNOT, CPHASE, CRX, CRY, CRZ, CZ, RX, RY, HamEvo
+from qadence.transpile import reassign
 from qadence.types import Interaction, Strategy
 
 DigitalEntanglers = Union[CNOT, CZ, CRZ, CRY, CRX]
@@ -337,9 +338,10 @@ def hea_sDAQC(
         The step-wise digital-analog Hardware Efficient Ansatz (sDA HEA) circuit.
     """
 
-    # TODO: Add qubit support
     if entangler is None:
         entangler = hamiltonian_factory(n_qubits, interaction=Interaction.NN)
+        if support is not None:
+            entangler = reassign(entangler, dict(enumerate(support)))
     try:
         if not block_is_qubit_hamiltonian(entangler):
             raise ValueError(
-- 
2.43.0


From f7da375d1a8556a0b541a0d5a71b369f4f5c79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 078/131] fix: prefix of Rydberg ansaetze was not attached to
 the names of their patterns and phase

---
 qadence/constructors/rydberg_hea.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/constructors/rydberg_hea.py b/qadence/constructors/rydberg_hea.py
index c87efe1..7bdd706 100644
--- a/qadence/constructors/rydberg_hea.py
+++ b/qadence/constructors/rydberg_hea.py
@@ -166,16 +166,16 @@ def rydberg_hea(
     detunings = None
     # add a detuning pattern locally addressing the atoms
     if addressable_detuning:
-        detunings = [qd.VariationalParameter(f"detmap_{j}") for j in range(n_qubits)]
+        detunings = [qd.VariationalParameter(f"detmap{prefix}_{j}") for j in range(n_qubits)]
 
     drives = None
     # add a drive pattern locally addressing the atoms
     if addressable_drive:
-        drives = [qd.VariationalParameter(f"drivemap_{j}") for j in range(n_qubits)]
+        drives = [qd.VariationalParameter(f"drivemap{prefix}_{j}") for j in range(n_qubits)]
 
     phase = None
     if tunable_phase:
-        phase = qd.VariationalParameter("phase")
+        phase = qd.VariationalParameter(f"phase{prefix}")
 
     return chain(
         rydberg_hea_layer(
-- 
2.43.0


From 9f94dfc76ffa8d851d06a37d91a800c94fdaff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:40 +0000
Subject: [PATCH 079/131] fix: evaluating powers, quotients and functions of
 parameter expressions gave wrong numbers

sympy's subs compares the base of a power with the substituted symbol, and a
Parameter compares equal to every expression that contains it.
---
 qadence/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 181e62c..20c49ae 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -292,7 +292,8 @@ def evaluate(expr: Expr, values: dict | None = None, as_torch: bool = False) ->
         if as_torch:
             res_value = make_differentiable(expr)(**{s.name: tensor(v) for s, v in query.items()})
         else:
-            res = expr.subs(query)
+            # not `subs`, which takes a power of an expression of a parameter for one of the parameter
+            res = expr.xreplace({s: sympify(v) for s, v in query.items()})
             res_value = sympy_to_numeric(res)
         return res_value
 
-- 
2.43.0


From a85ebfa4e3a7d88d33d068dfded1dac192ac2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 080/131] fix: depth and operations of alternating layer ansatz
 configurations were ignored

---
 qadence/ml_tools/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..e6b0a51 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -612,12 +612,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From 6be10d65b40d72a791fd132618e3399f6d972a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 081/131] fix: alternating layer ansaetze could not be
 interleaved with repeated feature maps

---
 qadence/ml_tools/constructors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index e6b0a51..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
-- 
2.43.0


From d3acd6db43efe4913c28c66a90d6995df6415f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 082/131] fix: digital-analog identity initialised ansatz
 configurations defaulted to a digital entangler

---
 qadence/ml_tools/constructors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..ce05f59 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,9 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    entangler = config.strategy_args.get(
+        "entangler", hamiltonian_factory(num_qubits, interaction=Interaction.NN)
+    )
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From 0cdb20eca1510c71d52ba6b69a6a4bdbd3f0be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 083/131] fix: feature map configurations did not recognise
 digital and analog operations

The operation is a gate class or a function, never a block, so that it was not
given preference over an incompatible strategy as documented.
---
 qadence/ml_tools/config.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/qadence/ml_tools/config.py b/qadence/ml_tools/config.py
index 985375b..47b8635 100644
--- a/qadence/ml_tools/config.py
+++ b/qadence/ml_tools/config.py
@@ -390,11 +390,10 @@ class FeatureMapConfig:
     """
 
     def __post_init__(self) -> None:
-        if self.multivariate_strategy == MultivariateStrategy.PARALLEL and self.num_features > 1:
-            assert (
-                self.feature_map_strategy == Strategy.DIGITAL
-            ), "For parallel encoding of multiple features, the `feature_map_strategy` must be \
-                  of `Strategy.DIGITAL`."
+        # operations are given as classes of gates, or as functions returning analog blocks
+        is_digital = isinstance(self.operation, type) and issubclass(
+            self.operation, ParametricBlock
+        )
 
         if self.operation is None:
             if self.feature_map_strategy == Strategy.DIGITAL:
@@ -404,7 +403,7 @@ class FeatureMapConfig:
 
         else:
             if self.feature_map_strategy == Strategy.DIGITAL:
-                if isinstance(self.operation, AnalogBlock):
+                if not is_digital:
                     logger.warning(
                         "The `operation` is of type `AnalogBlock` but the `feature_map_strategy` is\
                         `Strategy.DIGITAL`. The `feature_map_strategy` will be modified and given \
@@ -414,7 +413,7 @@ class FeatureMapConfig:
                     self.feature_map_strategy = Strategy.ANALOG
 
             elif self.feature_map_strategy == Strategy.ANALOG:
-                if isinstance(self.operation, ParametricBlock):
+                if is_digital:
                     logger.warning(
                         "The `operation` is a digital gate but the `feature_map_strategy` is\
                         `Strategy.ANALOG`. The `feature_map_strategy` will be modified and given\
@@ -431,10 +430,16 @@ class FeatureMapConfig:
                         `feature_map_strategy` will be modified and given operation will be used."
                     )
 
-                    if isinstance(self.operation, AnalogBlock):
-                        self.feature_map_strategy = Strategy.ANALOG
-                    else:
+                    if is_digital:
                         self.feature_map_strategy = Strategy.DIGITAL
+                    else:
+                        self.feature_map_strategy = Strategy.ANALOG
+
+        if self.multivariate_strategy == MultivariateStrategy.PARALLEL and self.num_features > 1:
+            assert (
+                self.feature_map_strategy == Strategy.DIGITAL
+            ), "For parallel encoding of multiple features, the `feature_map_strategy` must be \
+                  of `Strategy.DIGITAL`."
 
         if self.inputs is not None:
             assert (
-- 
2.43.0


From fcc84a7880e0d9049562f0ff68eba9b33d2e6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 084/131] fix: models could not be built from configurations
 with symbols as inputs

---
 qadence/ml_tools/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/ml_tools/config.py b/qadence/ml_tools/config.py
index 47b8635..12f2301 100644
--- a/qadence/ml_tools/config.py
+++ b/qadence/ml_tools/config.py
@@ -445,6 +445,8 @@ class FeatureMapConfig:
             assert (
                 len(self.inputs) == self.num_features
             ), "Inputs list must be of same size as the number of features"
+            # symbols are identified by their name
+            self.inputs = [str(feature) for feature in self.inputs]
         else:
             if self.num_features == 0:
                 self.inputs = []
@@ -481,6 +483,8 @@ class FeatureMapConfig:
             if target_field.name in property_list:
                 prop = getattr(self, target_field.name)
                 if isinstance(prop, dict):
+                    prop = {str(key): value for key, value in prop.items()}
+                    setattr(self, target_field.name, prop)
                     assert set(prop.keys()) == set(
                         self.inputs
                     ), f"The keys in {target_field.name} must be the same as the inputs provided. \
-- 
2.43.0


From 379c952d59f76e3acdfa07789be8f2e543379465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 085/131] fix: convolutional networks with repeated layers of
 few qubits could not be built

---
 qadence/ml_tools/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index ce05f59..4a87f78 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -1052,7 +1052,8 @@ def _create_conv_layer(
                 tag(W_pairs, f"W{control,target}")
                 rep_kron.append(W_pairs)
 
-            layer_reps.append(kron(*rep_kron))
+            if rep_kron:
+                layer_reps.append(kron(*rep_kron))
 
         # Combine all repetitions using `chain`
         current_layer.append(chain(*layer_reps))
-- 
2.43.0


From f57b401710b569a3c8d0cab740d803a1c25ad5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 086/131] fix: eigenvalues of (multi-)controlled Z could not be
 computed, generators of SWAP and CSWAP were wrong

---
 qadence/operations/control_ops.py | 25 ++++++-------------------
 qadence/operations/primitive.py   | 12 +++++-------
 2 files changed, 11 insertions(+), 26 deletions(-)

diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index 339f8b5..4fcdea5 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -15,7 +15,6 @@ from qadence.blocks import (
 )
 from qadence.blocks.utils import (
     add,  # noqa
-    chain,
     kron,
 )
 from qadence.noise import NoiseHandler
@@ -73,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
+        return torch.cat((torch.tensor([-2], dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
+        return torch.cat((torch.tensor([-1], dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -303,25 +302,13 @@ class CSWAP(ControlBlock):
         if isinstance(control, tuple):
             control = control[0]
 
-        a00m = -N(target=control)
-        a00p = -N(target=control, state="0")
-        a11 = -N(target=target1)
-        a22 = -N(target=target2, state="0")
-        a12 = 0.5 * (chain(X(target1), Z(target1)) + X(target1))
-        a21 = 0.5 * (chain(Z(target2), X(target2)) + X(target2))
-        no_effect = kron(a00m, I(target1), I(target2))
-        swap_effect = (
-            kron(a00p, -1.0 * a22, a11)
-            + kron(a00p, -1.0 * a11, a22)
-            + kron(a00p, a12, a21)
-            + kron(a00p, a21, a12)
-        )
-        self.generator = no_effect + swap_effect
-        super().__init__((control,), SWAP(target1, target2), noise=noise)
+        swap = SWAP(target1, target2)
+        self.generator = kron(N(control), swap.generator)
+        super().__init__((control,), swap, noise=noise)
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.tensor((1, -1, 1, 1, 1, 1, 1, 1), dtype=torch.cdouble)
+        return torch.tensor((-2, 0, 0, 0, 0, 0, 0, 0), dtype=torch.cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index e47796b..357c922 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -15,7 +15,6 @@ from qadence.blocks import (
 )
 from qadence.blocks.primitive import ProjectorBlock
 from qadence.blocks.utils import (
-    chain,
     kron,
 )
 from qadence.noise import NoiseHandler
@@ -367,12 +366,11 @@ class SWAP(PrimitiveBlock):
         target: int,
         noise: NoiseHandler | None = None,
     ) -> None:
-        a11 = 0.5 * (Z(control) - I(control))
-        a22 = -0.5 * (Z(target) + I(target))
-        a12 = 0.5 * (chain(X(control), Z(control)) + X(control))
-        a21 = 0.5 * (chain(Z(target), X(target)) + X(target))
-        self.generator = (
-            kron(-1.0 * a22, a11) + kron(-1.0 * a11, a22) + kron(a12, a21) + kron(a21, a12)
+        self.generator = 0.5 * (
+            kron(X(control), X(target))
+            + kron(Y(control), Y(target))
+            + kron(Z(control), Z(target))
+            - kron(I(control), I(target))
         )
         super().__init__((control, target), noise=noise)
 
-- 
2.43.0


From f6bd2a1d28c7f8c1acc68c7f825fb90ac8423dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 087/131] fix: eigenvalues of U could not be computed and those
 of scaled blocks ignored the scale

---
 qadence/blocks/primitive.py      |  2 +-
 qadence/operations/parametric.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 55450c1..33589fd 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -311,7 +311,7 @@ class ScaleBlock(ParametricBlock):
 
     @property
     def eigenvalues(self) -> torch.Tensor:
-        return self.block.eigenvalues
+        return evaluate(self.scale) * self.block.eigenvalues
 
     @property
     def _block_title(self) -> str:
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index d94d4c6..c456f52 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from logging import getLogger
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor, cdouble
@@ -200,10 +199,12 @@ class U(ParametricBlock):
 
     @property
     def eigenvalues(self) -> Tensor:
-        phi = evaluate(self.parameters.phi)
-        theta = evaluate(self.parameters.theta)
-        omega = evaluate(self.parameters.omega)
-        lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
+        phi = evaluate(self.parameters.phi, as_torch=True)
+        theta = evaluate(self.parameters.theta, as_torch=True)
+        omega = evaluate(self.parameters.omega, as_torch=True)
+        # half of the trace; the determinant is one
+        cos = torch.cos((phi + omega) / 2.0) * torch.cos(theta / 2.0)
+        lmbd = cos - 1j * torch.sqrt(torch.clamp(1.0 - cos**2, min=0.0))
         return torch.cat((lmbd, lmbd.conj()))
 
     def dagger(self) -> U:
-- 
2.43.0


From aac583da57cb047080d25d6f588ad7f47b59bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 088/131] fix: tags of scaled blocks and inside analog
 compositions were not found in circuits

---
 qadence/circuit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index c653956..c3f6f08 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -8,7 +8,8 @@ from typing import Iterable
 
 from sympy import Basic
 
-from qadence.blocks import AbstractBlock, AnalogBlock, CompositeBlock, chain
+from qadence.blocks import AbstractBlock, AnalogBlock, CompositeBlock, ScaleBlock, chain
+from qadence.blocks.analog import AnalogComposite
 from qadence.blocks.primitive import _block_from_dict
 from qadence.blocks.utils import parameters, primitive_blocks, unique_parameters
 from qadence.parameters import Parameter
@@ -136,8 +137,10 @@ class QuantumCircuit:
             blocks = []
             if block.tag == tag:
                 blocks += [block]
-            if isinstance(block, CompositeBlock):
+            if isinstance(block, (CompositeBlock, AnalogComposite)):
                 blocks += flatten(*[_get_block(b) for b in block.blocks])
+            elif isinstance(block, ScaleBlock):
+                blocks += _get_block(block.block)
             return blocks
 
         return _get_block(self.block)
-- 
2.43.0


From 0c516539a815b58fef3ec13ea6e69720c7761487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 089/131] fix: printed expressions of blocks scaled by a sum
 lacked parentheses

---
 qadence/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/utils.py b/qadence/utils.py
index df822f0..94d9373 100644
--- a/qadence/utils.py
+++ b/qadence/utils.py
@@ -355,6 +355,8 @@ def block_to_mathematical_expression(block: Tree | AbstractBlock) -> str:
                 block_title += " * " + block_to_mathematical_expression(block_tree.children[0])
 
         except ValueError:  # In case block_title is a non-numeric str (e.g. parameter name)
+            if re.search(r"\s[+-]\s", block_title):
+                block_title = "(" + block_title + ")"
             block_title += " * " + block_to_mathematical_expression(block_tree.children[0])
 
     first_part = block_title[:3]
-- 
2.43.0


From 169a2bb7311885cac57f6550d3d79ea75ec9a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:13 +0000
Subject: [PATCH 090/131] fix: processes launched with torchrun on CPU all took
 rank 0

---
 qadence/ml_tools/train_utils/execution.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qadence/ml_tools/train_utils/execution.py b/qadence/ml_tools/train_utils/execution.py
index 4d7119c..f3dace1 100644
--- a/qadence/ml_tools/train_utils/execution.py
+++ b/qadence/ml_tools/train_utils/execution.py
@@ -333,8 +333,6 @@ class TorchRunexecution(BaseExecution):
         Returns:
             int: The global rank of the process.
         """
-        if self.compute == "cpu":
-            return int(process_rank)
         return int(os.environ.get("RANK", process_rank))
 
     def get_local_rank(self, process_rank: int) -> int | None:
-- 
2.43.0


From 1a13780863dd7a9a8160aab983d2092b842a5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 091/131] fix: processes spawned for training on CPU all
 updated the same shared parameters

---
 qadence/ml_tools/train_utils/accelerator.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index a48d0d6..610996d 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -223,6 +223,9 @@ class Accelerator(Distributor):
 
         if self.execution_type == ExecutionType.DEFAULT and self.world_size > 1:
             # Spawn multiple processes that will run the worker function.
+            if isinstance(getattr(instance, "model", None), nn.Module):
+                # Casting in the processes would detach their model from the one shared with them.
+                instance.model.to(dtype=self.execution.dtype)
             nprocs = self.nprocs
             if self.execution.num_nodes > 1:
                 nprocs //= self.execution.num_nodes
@@ -293,6 +296,14 @@ class Accelerator(Distributor):
         """
         model = model.to(device=self.execution.device, dtype=self.execution.dtype)
 
+        # Spawned processes receive the model in shared memory. Only the first process trains
+        # that memory (which makes the trained model available to the parent process), the others
+        # need replicas of their own, as each process applies the optimization step itself.
+        if self.rank > 0:
+            for tensor in (*model.parameters(), *model.buffers()):
+                if tensor.is_shared():
+                    tensor.data = tensor.data.clone()
+
         # If using distributed training with more than one device:
         if self.world_size > 1:
             if self.execution.device.startswith("cuda"):
@@ -315,7 +326,13 @@ class Accelerator(Distributor):
         Returns:
             optim.Optimizer: The unmodified optimizer.
         """
-        # Optimizers are not device-specific in this context, so no action is needed.
+        # Optimizers are not device-specific in this context, so only their state, which spawned
+        # processes receive in shared memory, may have to be replicated (see `_prepare_model`).
+        if self.rank > 0:
+            for state in optimizer.state.values():
+                for value in state.values():
+                    if isinstance(value, torch.Tensor) and value.is_shared():
+                        value.data = value.data.clone()
         return optimizer
 
     def _prepare_data(self, dataloader: DataLoader | DictDataLoader) -> DataLoader | DictDataLoader:
-- 
2.43.0


From 814115ad77340c5ff2ceed62955801094683c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:49 +0000
Subject: [PATCH 092/131] fix: a finished training made later trainings in the
 same process ignore their number of processes

---
 qadence/ml_tools/train_utils/accelerator.py  | 33 ++++++++++----------
 qadence/ml_tools/train_utils/distribution.py | 16 +++++++++-
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index 610996d..c8f716c 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -119,23 +119,22 @@ class Accelerator(Distributor):
             # Get the original picklable function
             # for the case of bound class method
             # as well as a function
-            if self.is_class_method(fun, args):
-                instance = args[0]
-                method_name = fun.__name__
-                method = getattr(instance, method_name)
-                args = args[1:]
-                self._spawn_method(instance, method, args, kwargs)
-            else:
-                instance = None
-                # method_name = fun.__name__
-                # module = inspect.getmodule(fun)
-                # method = getattr(module, method_name) if module else fun
-                self._spawn_method(instance, fun, args, kwargs)
-
-            if instance and hasattr(instance, "accelerator"):
-                instance.accelerator.finalize()
-            else:
-                self.finalize()
+            instance = args[0] if self.is_class_method(fun, args) else None
+            try:
+                if instance is not None:
+                    method_name = fun.__name__
+                    method = getattr(instance, method_name)
+                    self._spawn_method(instance, method, args[1:], kwargs)
+                else:
+                    # method_name = fun.__name__
+                    # module = inspect.getmodule(fun)
+                    # method = getattr(module, method_name) if module else fun
+                    self._spawn_method(instance, fun, args, kwargs)
+            finally:
+                if instance is not None and hasattr(instance, "accelerator"):
+                    instance.accelerator.finalize()
+                else:
+                    self.finalize()
 
             # TODO: Return the original returns from fun
             # Currently it only returns the model and optimizer
diff --git a/qadence/ml_tools/train_utils/distribution.py b/qadence/ml_tools/train_utils/distribution.py
index e65967b..54a9007 100644
--- a/qadence/ml_tools/train_utils/distribution.py
+++ b/qadence/ml_tools/train_utils/distribution.py
@@ -12,6 +12,9 @@ from qadence.types import ExecutionType
 # Initialize the logger for this module
 logger = getLogger("ml_tools")
 
+# Set for every process of a distributed training.
+ENVIRONMENT_VARIABLES = ("RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT")
+
 
 class Distributor:
     """
@@ -75,6 +78,7 @@ class Distributor:
         )
 
         self._config_nprocs = nprocs
+        self._outer_environment: dict[str, str | None] | None = None
         if self.execution_type == ExecutionType.TORCHRUN:
             # torchrun already spawns multiple process with required env variables
             self.nprocs = 1
@@ -156,6 +160,8 @@ class Distributor:
         self.rank = self.execution.get_rank(process_rank)
         self.execution.set_device(self.local_rank)
         # Set environment variables for distributed training
+        if self._outer_environment is None:
+            self._outer_environment = {name: os.environ.get(name) for name in ENVIRONMENT_VARIABLES}
         os.environ["RANK"] = str(self.rank)
         os.environ["WORLD_SIZE"] = str(self.world_size)
         os.environ["LOCAL_RANK"] = str(self.local_rank)
@@ -191,12 +197,20 @@ class Distributor:
         Clean up the PyTorch distributed process group after training is complete.
 
         If the distributed process group has been initialized, it is destroyed. Additionally, the master
-        process (rank 0) logs that the process group is being killed.
+        process (rank 0) logs that the process group is being killed. The environment variables set
+        for the processes get the values they had before.
         """
         if dist.is_initialized():
             dist.destroy_process_group()
             if self.rank == 0:
                 logger.info("Killing Distributed Process Group")
+        # Later trainings in this process must not take the values set for this one.
+        for name, value in (self._outer_environment or {}).items():
+            if value is None:
+                os.environ.pop(name, None)
+            else:
+                os.environ[name] = value
+        self._outer_environment = None
 
     def _log_warnings(self) -> None:
 
-- 
2.43.0


From 22a27fa1e0dad7ea13c55547c640f206fa03145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:41 +0000
Subject: [PATCH 093/131] fix: checkpoints of distributed trainings could not
 be loaded by the models they were made from

---
 qadence/ml_tools/callbacks/saveload.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index c5ae10a..9d284a7 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -9,11 +9,17 @@ from typing import Any
 import torch
 from nevergrad.optimization.base import Optimizer as NGOptimizer
 from torch.nn import Module
+from torch.nn.parallel import DistributedDataParallel as DDP
 from torch.optim import Optimizer
 
 logger = getLogger("ml_tools")
 
 
+def _without_ddp(model: Module) -> Module:
+    """Checkpoints contain the model itself, also if it is trained by several processes."""
+    return model.module if isinstance(model, DDP) else model
+
+
 def get_latest_checkpoint_name(folder: Path, type: str, device: str | torch.device = "cpu") -> Path:
     file = Path("")
     files = [f for f in os.listdir(folder) if f.endswith(".pt") and type in f]
@@ -57,7 +63,7 @@ def load_checkpoint(
         return model, optimizer, 0
     if model_ckpt_name == "":
         model_ckpt_name = get_latest_checkpoint_name(
-            folder, f"model_{type(model).__name__}_ckpt_", device
+            folder, f"model_{type(_without_ddp(model)).__name__}_ckpt_", device
         )
     if opt_ckpt_name == "":
         # The optimizer has to be in the state saved together with the model, which is not
@@ -79,6 +85,7 @@ def write_checkpoint(
     from qadence import QuantumModel
     from qadence.ml_tools.models import QNN
 
+    model = _without_ddp(model)
     device = None
     try:
         # We extract the device from the pyqtorch native circuit
@@ -150,17 +157,18 @@ def load_model(
     iteration = 0
     if model_ckpt_name == "":
         model_ckpt_name = get_latest_checkpoint_name(
-            folder, f"model_{type(model).__name__}_ckpt_", device
+            folder, f"model_{type(_without_ddp(model)).__name__}_ckpt_", device
         )
 
     try:
         saved_iteration, model_dict = torch.load(
             folder / model_ckpt_name, weights_only=False, *args, **kwargs
         )
-        if isinstance(model, (QuantumModel, QNN)):
-            model.load_params_from_dict(model_dict)
-        elif isinstance(model, Module):
-            model.load_state_dict(model_dict, strict=True)
+        replica = _without_ddp(model)
+        if isinstance(replica, (QuantumModel, QNN)):
+            replica.load_params_from_dict(model_dict)
+        elif isinstance(replica, Module):
+            replica.load_state_dict(model_dict, strict=True)
         iteration = saved_iteration
         # Load model to a specific gpu device if specified
         pattern = re.compile("cuda:\d+$")
-- 
2.43.0


From f63a0a1afc6c410e4b935cb7f3d44d56737f87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 094/131] fix: only the first process of a distributed training
 resumed from the checkpoint

---
 qadence/ml_tools/callbacks/callbackmanager.py | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/qadence/ml_tools/callbacks/callbackmanager.py b/qadence/ml_tools/callbacks/callbackmanager.py
index 6c873b1..693e97a 100644
--- a/qadence/ml_tools/callbacks/callbackmanager.py
+++ b/qadence/ml_tools/callbacks/callbackmanager.py
@@ -4,6 +4,8 @@ import copy
 import logging
 from typing import Any
 
+from torch.optim import Optimizer
+
 from qadence.ml_tools.callbacks.callback import (
     Callback,
     LoadCheckpoint,
@@ -189,6 +191,9 @@ class CallbacksManager:
                 writer=None,  # type: ignore[arg-type]
             )
 
+            if trainer.accelerator.world_size > 1:
+                loaded_result = self._broadcast_checkpoint(trainer, loaded_result)
+
             if loaded_result:
                 model, optimizer, init_iter = loaded_result
                 if isinstance(init_iter, (int, str)):
@@ -207,6 +212,26 @@ class CallbacksManager:
         if trainer.accelerator.rank == 0:
             self.writer.open(self.config, iteration=trainer.global_step)
 
+    def _broadcast_checkpoint(self, trainer: Any, loaded_result: Any) -> Any:
+        """
+        Shares the checkpoint loaded by the first process with the other ones.
+
+        The parameters of the model are synchronized when the model is prepared.
+
+        Args:
+            trainer (Any): The training object managing the training process.
+            loaded_result (Any): The checkpoint, `None` except in the first process.
+
+        Returns:
+            Any: The model, optimizer, and iteration to start from.
+        """
+        model, optimizer, init_iter = loaded_result or (trainer.model, trainer.optimizer, None)
+        state = optimizer.state_dict() if isinstance(optimizer, Optimizer) else None
+        init_iter, state = trainer.accelerator.broadcast((init_iter, state), src=0)
+        if trainer.accelerator.rank > 0 and isinstance(optimizer, Optimizer):
+            optimizer.load_state_dict(state)
+        return model, optimizer, init_iter
+
     def end_training(self, trainer: Any) -> None:
         """
         Cleans up and finalizes the training process.
-- 
2.43.0


From a086899a7c1026010a64efaff7e50e27dcc9beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 095/131] fix: distributed trainings could not be continued
 with another fit

---
 qadence/ml_tools/train_utils/accelerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index c8f716c..1ff1cf3 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -293,6 +293,9 @@ class Accelerator(Distributor):
         Returns:
             nn.Module: The model moved to the correct device (and wrapped in DDP if applicable).
         """
+        if isinstance(model, DDP):
+            # The process group of the previous training does not exist any more.
+            model = model.module
         model = model.to(device=self.execution.device, dtype=self.execution.dtype)
 
         # Spawned processes receive the model in shared memory. Only the first process trains
-- 
2.43.0


From 60c2fab28f8b3c1ed6311360c2339dab97e40cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 096/131] fix: bounds from information content ignored the
 number of variations

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index 71d2711..eb409f2 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -893,7 +893,7 @@ class Trainer(BaseTrainer):
 
         batch = next(iter(self._batch_iter(dataloader, num_batches=1)))
 
-        ic = InformationContent(self.model, self.loss_fn, batch, epsilons)
+        ic = InformationContent(self.model, self.loss_fn, batch, epsilons, variation_multiple)
 
         max_ic_lower_bound, max_ic_upper_bound = ic.get_grad_norm_bounds_max_IC()
         sensitivity_ic_upper_bound = ic.get_grad_norm_bounds_sensitivity_IC(eta)
-- 
2.43.0


From 59b0eb8dad186d5a405e4263d38cd0777291eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:05 +0000
Subject: [PATCH 097/131] fix: distributed training ignored how data loaders
 collate samples and drop the last batch

---
 qadence/ml_tools/train_utils/accelerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index 1ff1cf3..dd617bb 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -402,6 +402,8 @@ class Accelerator(Distributor):
                 sampler=sampler,  # Use the created DistributedSampler (or None).
                 num_workers=getattr(dataloader, "num_workers", 0),
                 pin_memory=getattr(dataloader, "pin_memory", False),
+                collate_fn=dataloader.collate_fn,
+                drop_last=dataloader.drop_last,
             )
         return dataloader
 
-- 
2.43.0


From 8ebb30e5226e36b2867144e72bf66015d9633cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:03 +0000
Subject: [PATCH 098/131] fix: processes launched with torchrun often hung in
 their second training

---
 qadence/ml_tools/train_utils/distribution.py | 21 ++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/qadence/ml_tools/train_utils/distribution.py b/qadence/ml_tools/train_utils/distribution.py
index 54a9007..e24d90a 100644
--- a/qadence/ml_tools/train_utils/distribution.py
+++ b/qadence/ml_tools/train_utils/distribution.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 from logging import getLogger
 
+import atexit
 import os
 import torch
 import torch.distributed as dist
@@ -16,6 +17,12 @@ logger = getLogger("ml_tools")
 ENVIRONMENT_VARIABLES = ("RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT")
 
 
+def destroy_process_group() -> None:
+    """Destroy the process group if there is one."""
+    if dist.is_initialized():
+        dist.destroy_process_group()
+
+
 class Distributor:
     """
     Class to set up and manage distributed training.
@@ -180,9 +187,13 @@ class Distributor:
         all processes with a barrier.
         """
         if self.world_size and self.world_size > 1:
-            dist.init_process_group(
-                backend=self.execution.backend, rank=self.rank, world_size=self.world_size
-            )
+            # `torchrun` processes keep their process group (see `finalize`)
+            if not dist.is_initialized():
+                dist.init_process_group(
+                    backend=self.execution.backend, rank=self.rank, world_size=self.world_size
+                )
+                if self.execution_type == ExecutionType.TORCHRUN:
+                    atexit.register(destroy_process_group)
             if self.rank == 0:
                 logger.info("Starting Distributed Process Group")
                 logger.info("=============================")
@@ -200,7 +211,9 @@ class Distributor:
         process (rank 0) logs that the process group is being killed. The environment variables set
         for the processes get the values they had before.
         """
-        if dist.is_initialized():
+        # Under `torchrun` the process group is kept until the program ends: the processes could not
+        # reliably meet again for another training through the store they share.
+        if dist.is_initialized() and self.execution_type != ExecutionType.TORCHRUN:
             dist.destroy_process_group()
             if self.rank == 0:
                 logger.info("Killing Distributed Process Group")
-- 
2.43.0


From bd6a824a1819be1483e408cdb779dbfd9347fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:37 +0000
Subject: [PATCH 099/131] fix: GPU processes on different nodes trained on the
 same samples

---
 qadence/ml_tools/train_utils/accelerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index dd617bb..04e88f3 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -370,7 +370,7 @@ class Accelerator(Distributor):
         - If distributed training is enabled:
             - Checks if the dataset is not an instance of `InfiniteTensorDataset`.
                 - If so, creates a `DistributedSampler` for the dataset using the total number
-                    of replicas (`self.world_size`) and the current process's rank (`self.local_rank`).
+                    of replicas (`self.world_size`) and the current process's rank (`self.rank`).
                 - Otherwise (i.e., for infinite datasets), no sampler is set (sampler remains `None`).
             - Returns a new DataLoader configured with:
                 - The same dataset and batch size as the original.
@@ -389,7 +389,7 @@ class Accelerator(Distributor):
             if not isinstance(dataloader.dataset, InfiniteTensorDataset):
                 # If the dataset is not an infinite dataset, create a DistributedSampler.
                 sampler = DistributedSampler(
-                    dataloader.dataset, num_replicas=self.world_size, rank=self.local_rank
+                    dataloader.dataset, num_replicas=self.world_size, rank=self.rank
                 )
             else:
                 # For infinite datasets, we do not use a sampler since the dataset
-- 
2.43.0


From 0c3c62cf83adff27852fdfe2513f44ce3a18cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 100/131] fix: information content varied the fixed parameters
 of models

---
 qadence/ml_tools/information/information_content.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/information/information_content.py b/qadence/ml_tools/information/information_content.py
index d9d5b19..0938dab 100644
--- a/qadence/ml_tools/information/information_content.py
+++ b/qadence/ml_tools/information/information_content.py
@@ -120,6 +120,8 @@ class InformationContent:
         self.total_params = 0
 
         for name, param in model.named_parameters():
+            if not param.requires_grad:
+                continue
             self.param_shapes[name] = param.shape
             self.total_params += param.numel()
         self.n_variations = variation_multiple * self.total_params
-- 
2.43.0


From d993a1ceaf953c06a34c8ed4b068283e1a7e8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 101/131] fix: information content of models with scalar
 parameters could not be computed

---
 qadence/ml_tools/information/information_content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/information/information_content.py b/qadence/ml_tools/information/information_content.py
index 0938dab..683777f 100644
--- a/qadence/ml_tools/information/information_content.py
+++ b/qadence/ml_tools/information/information_content.py
@@ -139,7 +139,7 @@ class InformationContent:
         start_idx = 0
 
         for name, shape in self.param_shapes.items():
-            param_size = torch.prod(torch.tensor(shape)).item()
+            param_size = shape.numel()
             param_variations[name] = self.all_variations[
                 :, start_idx : start_idx + param_size
             ].view(self.n_variations, *shape)
-- 
2.43.0


From f48ea446b7475dec3a4949afda5faef2ef8d349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 102/131] fix: data loaders moved to a device lost their batch
 size, sampling and collation

---
 qadence/ml_tools/data.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index f8f30e9..4ed2781 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -143,7 +143,24 @@ def _(xs: dict, *args: Any, **kwargs: Any) -> dict:
 
 @data_to_device.register(DataLoader)
 def _(xs: DataLoader, *args: Any, **kwargs: Any) -> DataLoader:
-    return DataLoader(data_to_device(xs.dataset, *args, **kwargs))
+    options: dict[str, Any] = {
+        "collate_fn": xs.collate_fn,
+        "num_workers": xs.num_workers,
+        "pin_memory": xs.pin_memory,
+        "timeout": xs.timeout,
+        "worker_init_fn": xs.worker_init_fn,
+        "generator": xs.generator,
+        "prefetch_factor": xs.prefetch_factor,
+        "persistent_workers": xs.persistent_workers,
+    }
+    if xs.batch_size is None and xs.batch_sampler is not None:
+        options["batch_sampler"] = xs.batch_sampler
+    else:
+        options["batch_size"] = xs.batch_size
+        options["drop_last"] = xs.drop_last
+        if not isinstance(xs.dataset, IterableDataset):
+            options["sampler"] = xs.sampler
+    return DataLoader(data_to_device(xs.dataset, *args, **kwargs), **options)
 
 
 @data_to_device.register(DictDataLoader)
-- 
2.43.0


From 39dec9c7e08d4303e4bd7f7217353c9ce1f01f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 103/131] fix: divergence of count tables with zero counts was
 nan

---
 qadence/divergences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/divergences.py b/qadence/divergences.py
index 0610863..55569c5 100644
--- a/qadence/divergences.py
+++ b/qadence/divergences.py
@@ -6,7 +6,7 @@ import numpy as np
 
 
 def shannon_entropy(counter: Counter) -> float:
-    return float(-np.sum([count * np.log(count) for count in counter.values()]))
+    return float(-np.sum([count * np.log(count) for count in counter.values() if count > 0]))
 
 
 def js_divergence(counter_p: Counter, counter_q: Counter) -> float:
-- 
2.43.0


From 3d2a382d62404fe64007f7309cafe4fb87be7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 104/131] fix: norm_difference compared the counts of different
 bitstrings

---
 qadence/divergences.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/divergences.py b/qadence/divergences.py
index 55569c5..d7737a4 100644
--- a/qadence/divergences.py
+++ b/qadence/divergences.py
@@ -41,10 +41,11 @@ def js_divergence(counter_p: Counter, counter_q: Counter) -> float:
 def norm_difference(counter_p: Counter, counter_q: Counter) -> float:
     # Normalise counters
 
-    counter_p = np.array([v for v in counter_p.values()])
-    counter_q = np.array([v for v in counter_q.values()])
+    keys = list(dict.fromkeys([*counter_p, *counter_q]))
+    values_p = np.array([counter_p.get(k, 0) for k in keys])
+    values_q = np.array([counter_q.get(k, 0) for k in keys])
 
-    prob_p = counter_p / np.sum(counter_p)
-    prob_q = counter_q / np.sum(counter_q)
+    prob_p = values_p / np.sum(values_p)
+    prob_q = values_q / np.sum(values_q)
 
     return float(np.linalg.norm(prob_p - prob_q))
-- 
2.43.0


From 06b47322209591f648901ed77f435bba7b630bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 105/131] fix: random feature parameters of a model lacked
 those of its observables

---
 qadence/ml_tools/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/utils.py b/qadence/ml_tools/utils.py
index ca5e40c..fa8b348 100644
--- a/qadence/ml_tools/utils.py
+++ b/qadence/ml_tools/utils.py
@@ -32,9 +32,12 @@ def _(circuit: QuantumCircuit, batch_size: int = 1) -> dict[str, Tensor]:
 
 @rand_featureparameters.register
 def _(qm: QuantumModel, batch_size: int = 1) -> dict[str, Tensor]:
-    return rand_featureparameters(qm._circuit.abstract, batch_size)
+    features = rand_featureparameters(qm._circuit.abstract, batch_size)
+    for observable in qm._observable or []:
+        features.update(rand_featureparameters(observable.abstract, batch_size))
+    return features
 
 
 @rand_featureparameters.register
 def _(qnn: QNN, batch_size: int = 1) -> dict[str, Tensor]:
-    return rand_featureparameters(qnn._circuit.abstract, batch_size)
+    return rand_featureparameters.dispatch(QuantumModel)(qnn, batch_size)
-- 
2.43.0


From e612e523b998347c2a82f78e7ee609c74263282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 106/131] fix: mixed finite differences ignored the requested
 spacing

---
 qadence/backends/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/utils.py b/qadence/backends/utils.py
index c1c64ef..0a2e056 100644
--- a/qadence/backends/utils.py
+++ b/qadence/backends/utils.py
@@ -218,6 +218,7 @@ def finitediff(
         (Tensor): The finite difference of the function at the point `x`.
     """
 
+    spacing = eps
     if eps is None:
         order = len(derivative_indices)
         eps = torch.finfo(x.dtype).eps ** (1 / (2 + order))
@@ -232,7 +233,7 @@ def finitediff(
     # recursive finite differencing for higher order than 3 / mixed derivatives
     if len(derivative_indices) > 3 or len(set(derivative_indices)) > 1:
         di = derivative_indices[1:]
-        return (finitediff(f, x + ev, di) - finitediff(f, x - ev, di)) * _eps / 2
+        return (finitediff(f, x + ev, di, spacing) - finitediff(f, x - ev, di, spacing)) * _eps / 2
     elif len(derivative_indices) == 3:
         return (f(x + 2 * ev) - 2 * f(x + ev) + 2 * f(x - ev) - f(x - 2 * ev)) * _eps**3 / 2
     elif len(derivative_indices) == 2:
-- 
2.43.0


From 590218639901acde2b2b16d18abc443dc4dae5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 107/131] fix: analog rotations with negative detuning were
 refused by the pulser backend

---
 qadence/backends/pulser/waveforms.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qadence/backends/pulser/waveforms.py b/qadence/backends/pulser/waveforms.py
index aac0a65..b3b618b 100644
--- a/qadence/backends/pulser/waveforms.py
+++ b/qadence/backends/pulser/waveforms.py
@@ -6,7 +6,6 @@ from pulser.waveforms import ConstantWaveform
 
 # determined by hardware team as a safe resolution
 MAX_AMPLITUDE_SCALING = 0.1
-EPS = 1e-9
 
 
 class SquareWaveform(ConstantWaveform):
@@ -64,15 +63,9 @@ class SquareWaveform(ConstantWaveform):
         duration_steps: int = 1,
         min_duration: int = 1,
     ) -> SquareWaveform:
-        amp_steps = MAX_AMPLITUDE_SCALING * max_amp
-
         duration = max(
             duration_steps * np.round(duration / duration_steps),
             min_duration,
         )
-        amplitude = min(
-            amp_steps * np.ceil(max_amp / (amp_steps + EPS) * 1e3),
-            max_amp,
-        )
 
-        return cls(duration, amplitude)
+        return cls(duration, max_amp)
-- 
2.43.0


From 2d4c16c37d5bd964b24c2b7c036f52046e7173fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 108/131] fix: analog rotations ran with the opposite phase on
 the pulser backend

---
 qadence/backends/pulser/pulses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 976ee8c..5f4bd3c 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -235,7 +235,8 @@ def analog_rot_pulse(
         min_duration=channel.min_duration,
     )
 
-    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
+    # Pulser's rotation axis turns the other way (its basis states are swapped)
+    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=-phase)
 
 
 def entangle_pulse(
-- 
2.43.0


From 4869f39059d8c03f77924bd6ed7af407e213dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 109/131] fix: rotations by negative angles ran as rotations by
 positive ones on the pulser backend

---
 qadence/backends/pulser/pulses.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 5f4bd3c..00413d1 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -46,6 +46,9 @@ supported_gates = [
     OpName.ANALOGINTERACTION,
 ]
 
+# smallest angle whose sign matters
+ANGLE_EPS = 1e-12
+
 
 def add_addressing_pattern(
     sequence: Sequence,
@@ -197,6 +200,11 @@ def add_pulses(
         raise NotImplementedError(msg)
 
 
+def sign(angle: TVar | float) -> TVar | float:
+    """Sign of an angle, which may be a variable."""
+    return angle / (abs(angle) + ANGLE_EPS)
+
+
 def analog_rot_pulse(
     alpha: TVar | float,
     omega: TVar | float,
@@ -230,11 +238,14 @@ def analog_rot_pulse(
     # create detuning waveform
     det_wf = SquareWaveform.from_duration(
         duration=duration,  # type: ignore
-        max_amp=max_det,  # type: ignore[arg-type]
+        max_amp=max_det * sign(alpha),  # type: ignore[arg-type,operator]
         duration_steps=channel.clock_period,  # type: ignore[attr-defined]
         min_duration=channel.min_duration,
     )
 
+    # Negative angles are rotations by positive ones about the opposite axis.
+    phase = phase - (1 - sign(alpha)) * PI / 2
+
     # Pulser's rotation axis turns the other way (its basis states are swapped)
     return Pulse(amplitude=amp_wf, detuning=det_wf, phase=-phase)
 
@@ -272,7 +283,6 @@ def digital_xy_rot_pulse(
     else:
         max_amp = config.amplitude_local if config.amplitude_local is not None else channel.max_amp
 
-    # TODO: Implement reverse rotation for angles bigger than π
     amplitude_wf = SquareWaveform.from_area(
         area=abs(angle),  # type: ignore
         max_amp=max_amp,  # type: ignore[arg-type]
@@ -280,6 +290,9 @@ def digital_xy_rot_pulse(
         min_duration=channel.min_duration,
     )
 
+    # Negative angles are rotations by positive ones about the opposite axis.
+    phase = phase + (1 - sign(angle)) * PI / 2
+
     return Pulse.ConstantDetuning(amplitude=amplitude_wf, detuning=0, phase=phase)
 
 
@@ -305,7 +318,7 @@ def digital_z_rot_pulse(
     # create detuning waveform
     det_wf = SquareWaveform.from_duration(
         duration=duration,  # type: ignore
-        max_amp=max_det,  # type: ignore[arg-type]
+        max_amp=max_det * sign(angle),  # type: ignore[arg-type,operator]
         duration_steps=channel.clock_period,  # type: ignore[attr-defined]
         min_duration=channel.min_duration,
     )
-- 
2.43.0


From e6723131701c5ee8c4b22c71de364b3a2c55de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 110/131] fix: noisy runs left their noise in the configuration
 of the pulser backend

---
 qadence/backends/pulser/backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index 87094b3..d156a49 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections import Counter
 from collections.abc import Iterable
+from copy import copy
 from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any
@@ -254,11 +255,13 @@ class Backend(BackendInterface):
                 "noise": noise.protocol[-1].lower(),
                 noise.protocol[-1].lower() + "_rate": noise_prob,
             }
-            self.config.sim_config = SimConfig(**sim_config)
+            # the backend's own configuration is left as it is: other runs share it
+            config = copy(self.config)
+            config.sim_config = SimConfig(**sim_config)
 
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
-                sim_result: CoherentResults = simulate_sequence(sequence, self.config, state)
+                sim_result: CoherentResults = simulate_sequence(sequence, config, state)
                 final_state = sim_result.get_final_state().data.to_array()
                 batched_dm[i] = np.flip(final_state)
             return torch.from_numpy(batched_dm)
-- 
2.43.0


From 899abea0baf4775eae18c53aa47ec40b33f34e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 111/131] fix: noisy runs with probability 0 gave wrong density
 matrices on the pulser backend

---
 qadence/backends/pulser/backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index d156a49..dfdd86b 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -262,8 +262,10 @@ class Backend(BackendInterface):
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
                 sim_result: CoherentResults = simulate_sequence(sequence, config, state)
-                final_state = sim_result.get_final_state().data.to_array()
-                batched_dm[i] = np.flip(final_state)
+                final_state = sim_result.get_final_state()
+                if final_state.isket:  # there is no noise with probability 0
+                    final_state = qutip.ket2dm(final_state)
+                batched_dm[i] = np.flip(final_state.full())
             return torch.from_numpy(batched_dm)
 
         # Pulser requires numpy types.
-- 
2.43.0


From c48af7f4509a9594069f6d2bb190cb18a6a6a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 112/131] fix: noisy runs from an initial state failed on the
 pulser backend

---
 qadence/backends/pulser/backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index dfdd86b..a14a3dc 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -241,6 +241,7 @@ class Backend(BackendInterface):
         endianness: Endianness = Endianness.BIG,
     ) -> Tensor:
         vals = to_list_of_dicts(param_values)
+        state = state if state is None else _convert_init_state(state)
         if not isinstance(noise.protocol[-1], NoiseProtocol.ANALOG):
             raise TypeError("Noise must be of type `NoiseProtocol.ANALOG`.")
         noise_probs = noise.options[-1].get("noise_probs", None)
-- 
2.43.0


From fd9e10b71531e633330fb69e58fcf2c76d47613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 113/131] fix: noisy runs ignored the addressing pattern on the
 pulser backend

---
 qadence/backends/pulser/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index a14a3dc..c0e5593 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -262,6 +262,9 @@ class Backend(BackendInterface):
 
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
+                pattern = circuit.original.register.device_specs.pattern
+                if pattern is not None:
+                    add_addressing_pattern(sequence, pattern)
                 sim_result: CoherentResults = simulate_sequence(sequence, config, state)
                 final_state = sim_result.get_final_state()
                 if final_state.isket:  # there is no noise with probability 0
-- 
2.43.0


From 580670e6281e67d664bfb4801f17dfae674810ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 114/131] fix: small RZ rotations were enlarged to the shortest
 pulse of realistic devices on the pulser backend

---
 qadence/backends/pulser/pulses.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 00413d1..550f94e 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -304,23 +304,14 @@ def digital_z_rot_pulse(
     else:
         max_det = config.detuning if config.detuning is not None else channel.max_abs_detuning
 
-    # get pulse duration in ns
-    duration = 1000 * abs(angle) / max_det
-
-    # create amplitude waveform
-    amp_wf = SquareWaveform.from_duration(
-        duration=duration,  # type: ignore
-        max_amp=0.0,  # type: ignore[arg-type]
-        duration_steps=channel.clock_period,  # type: ignore[attr-defined]
-        min_duration=channel.min_duration,
-    )
-
     # create detuning waveform
-    det_wf = SquareWaveform.from_duration(
-        duration=duration,  # type: ignore
-        max_amp=max_det * sign(angle),  # type: ignore[arg-type,operator]
+    det_wf = SquareWaveform.from_area(
+        area=abs(angle),  # type: ignore
+        max_amp=max_det,  # type: ignore[arg-type]
         duration_steps=channel.clock_period,  # type: ignore[attr-defined]
         min_duration=channel.min_duration,
     )
 
-    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
+    return Pulse.ConstantAmplitude(
+        amplitude=0.0, detuning=det_wf * sign(angle), phase=abs(phase)  # type: ignore[operator]
+    )
-- 
2.43.0


From 5872060df79d74dcf310119ab6b355a103c28e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 115/131] fix: analog rotations with feature parameters other
 than the angle failed on the pulser backend

---
 qadence/backends/pulser/pulses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 550f94e..86bd3fa 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -161,8 +161,9 @@ def add_pulses(
         p = evaluate(phase) if phase.is_number else sequence.declare_variable(p_uuid)
         d = evaluate(detuning) if detuning.is_number else sequence.declare_variable(d_uuid)
 
-        # calculate generator eigenvalues
-        block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
+        # calculate generator eigenvalues, unless they depend on values given later
+        if all(s.trainable for e in (omega, phase, detuning) for s in e.free_symbols):
+            block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
 
         if block.qubit_support.is_global:
             pulse = analog_rot_pulse(a, w, p, d, global_channel, config)
-- 
2.43.0


From dbc86d958d9fd95bfaf1d8faef7104bb72954892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:47 +0000
Subject: [PATCH 116/131] fix: expectation values of observables with Y had the
 opposite sign on the pulser backend

---
 qadence/backends/pulser/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/convert_ops.py b/qadence/backends/pulser/convert_ops.py
index 0e71e24..7b8099e 100644
--- a/qadence/backends/pulser/convert_ops.py
+++ b/qadence/backends/pulser/convert_ops.py
@@ -50,6 +50,6 @@ class PulserObservable(Module):
                 self.block, values, qubit_support=qubit_support, endianness=endianness  # type: ignore [arg-type]  # noqa
             ).squeeze(0)
         if noise is None:  # Compute expectations for state vector.
-            return torch.sum(torch.matmul(state, block_mat) * state.conj(), dim=1)
+            return torch.sum(torch.matmul(state.conj(), block_mat) * state, dim=1)
         else:  # Compute expectations for density matrices.
             return torch.trace(torch.matmul(block_mat, state))
-- 
2.43.0


From 9ada1ae74372c10edd74dd1b11778f402a91b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 117/131] fix: parametric observables ignored the values given
 or trained on the pulser backend

---
 qadence/backends/pulser/convert_ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/convert_ops.py b/qadence/backends/pulser/convert_ops.py
index 7b8099e..2c011c3 100644
--- a/qadence/backends/pulser/convert_ops.py
+++ b/qadence/backends/pulser/convert_ops.py
@@ -10,6 +10,7 @@ from qadence.blocks import (
     AbstractBlock,
 )
 from qadence.blocks.block_to_tensor import (
+    _block_to_tensor_embedded,
     block_to_tensor,
 )
 from qadence.utils import Endianness
@@ -46,10 +47,12 @@ class PulserObservable(Module):
         if not self.block.is_parametric:
             block_mat = self.block_mat
         else:
-            block_mat = block_to_tensor(
+            # the values are those of the gates' parameters, possibly batches of them
+            block_mat = _block_to_tensor_embedded(
                 self.block, values, qubit_support=qubit_support, endianness=endianness  # type: ignore [arg-type]  # noqa
             ).squeeze(0)
         if noise is None:  # Compute expectations for state vector.
-            return torch.sum(torch.matmul(state.conj(), block_mat) * state, dim=1)
+            bra = torch.matmul(state.conj().unsqueeze(1), block_mat).squeeze(1)
+            return torch.sum(bra * state, dim=1)
         else:  # Compute expectations for density matrices.
             return torch.trace(torch.matmul(block_mat, state))
-- 
2.43.0


From 9dc013cf8491811b30faf83a8af944d518335dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 118/131] fix: workloads accepted matrices as values of one
 parameter and refused to have none

---
 qadence/pasqal_cloud_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/pasqal_cloud_connection.py b/qadence/pasqal_cloud_connection.py
index 71ef45e..f28d023 100644
--- a/qadence/pasqal_cloud_connection.py
+++ b/qadence/pasqal_cloud_connection.py
@@ -61,7 +61,7 @@ class WorkloadSpec:
         if self.parameter_values is None:
             return
         parameter_sizes = [value.size() for value in list(self.parameter_values.values())]
-        if all(len(size) > 1 for size in parameter_sizes):
+        if any(len(size) > 1 for size in parameter_sizes):
             raise ValueError("The dimension of the parameters in parameter_values must be 0 or 1")
         parameter_lengths = [size[0] for size in parameter_sizes if len(size) == 1]
         if not all(item == parameter_lengths[0] for item in parameter_lengths):
-- 
2.43.0


From 26fdbaca925542e93ab745ebe72a15baeebee3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 119/131] fix: results finished before the timeout of
 get_result were never asked for

---
 qadence/pasqal_cloud_connection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/pasqal_cloud_connection.py b/qadence/pasqal_cloud_connection.py
index f28d023..529168c 100644
--- a/qadence/pasqal_cloud_connection.py
+++ b/qadence/pasqal_cloud_connection.py
@@ -225,11 +225,11 @@ def get_result(
         The workload result if its status is "DONE" as a `pasqal_cloud.Workload` object.
     """
     max_refresh_count = int(timeout // refresh_time)
-    for _ in range(max_refresh_count):
+    for i in range(max_refresh_count + 1):
+        if i > 0:
+            time.sleep(refresh_time)
         try:
-            result = check_status(connection, workload_id)
+            return check_status(connection, workload_id)
         except WorkloadNotDoneError:
-            time.sleep(refresh_time)
             continue
-        return result
     raise TimeoutError("Request timed out because it wasn't finished in the specified time. ")
-- 
2.43.0


From 834aedd6bc21260617554c8558815e9528bfc8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:00 +0000
Subject: [PATCH 120/131] fix: cloud clients were reused after their
 credentials in the environment changed

---
 qadence/backends/pulser/cloud.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/qadence/backends/pulser/cloud.py b/qadence/backends/pulser/cloud.py
index 8f7f067..cd94556 100644
--- a/qadence/backends/pulser/cloud.py
+++ b/qadence/backends/pulser/cloud.py
@@ -20,16 +20,6 @@ def _get_client(
     auth0conf: Optional[Auth0Conf] = None
     endpoints: Optional[Endpoints] = None
 
-    username = os.environ.get("PASQAL_CLOUD_USERNAME", "") if username is None else username
-    password = os.environ.get("PASQAL_CLOUD_PASSWORD", "") if password is None else password
-    project_id = os.environ.get("PASQAL_CLOUD_PROJECT_ID", "") if project_id is None else project_id
-
-    environment = (
-        os.environ.get("PASQAL_CLOUD_ENV", DEFAULT_CLOUD_ENV)
-        if environment is None
-        else environment
-    )
-
     # setup configuration for environments different than production
     if environment == "preprod":
         auth0conf = AUTH0_CONFIG["preprod"]
@@ -54,10 +44,24 @@ def _get_client(
 
 
 def get_client(credentials: CloudConfiguration) -> SDK:
+    # Read the environment outside of the cached function, as it may change.
+    username, password = credentials.username, credentials.password
+    project_id, environment = credentials.project_id, credentials.environment
+
+    username = os.environ.get("PASQAL_CLOUD_USERNAME", "") if username is None else username
+    password = os.environ.get("PASQAL_CLOUD_PASSWORD", "") if password is None else password
+    project_id = os.environ.get("PASQAL_CLOUD_PROJECT_ID", "") if project_id is None else project_id
+
+    environment = (
+        os.environ.get("PASQAL_CLOUD_ENV", DEFAULT_CLOUD_ENV)
+        if environment is None
+        else environment
+    )
+
     return _get_client(
-        username=credentials.username,
-        password=credentials.password,
-        project_id=credentials.project_id,
-        environment=credentials.environment,
+        username=username,
+        password=password,
+        project_id=project_id,
+        environment=environment,
         token_provider=credentials.token_provider,
     )
-- 
2.43.0


From 69d9f46c109b54305ee4394759b3532f5495ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:00 +0000
Subject: [PATCH 121/131] fix: cloud samples silently ignored the initial state
 on the pulser backend

---
 qadence/backends/pulser/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index c0e5593..e7615f7 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -88,6 +88,9 @@ def simulate_sequence(
     sequence: Sequence, config: Configuration, state: Tensor, n_shots: int | None = None
 ) -> SimulationResults | Counter:
     if config.cloud_configuration is not None:
+        if state is not None:
+            raise ValueError("Initial states are not supported by cloud simulations.")
+
         client = get_client(config.cloud_configuration)
 
         serialized_sequence = sequence.to_abstract_repr()
-- 
2.43.0


From b247053b11bbf83f41a2039ae0134121af0de266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 122/131] fix: failed training lost its logs and blocked later
 training with mlflow

---
 qadence/ml_tools/callbacks/writer_registry.py | 4 ++--
 qadence/ml_tools/trainer.py                   | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/qadence/ml_tools/callbacks/writer_registry.py b/qadence/ml_tools/callbacks/writer_registry.py
index 4e83d5f..c740d24 100644
--- a/qadence/ml_tools/callbacks/writer_registry.py
+++ b/qadence/ml_tools/callbacks/writer_registry.py
@@ -266,8 +266,8 @@ class MLFlowWriter(BaseWriter):
                 "`pip install qadence[mlflow]`."
             )
 
-        self.run: Run
-        self.mlflow: ModuleType
+        self.run: Run | None = None
+        self.mlflow: ModuleType | None = None
 
     def open(self, config: TrainConfig, iteration: int | None = None) -> ModuleType | None:
         """
diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index eb409f2..6d910a8 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -307,9 +307,12 @@ class Trainer(BaseTrainer):
         if val_dataloader is not None:
             self.val_dataloader = val_dataloader
 
-        self._fit_setup()
-        self._train()
-        self._fit_end()
+        try:
+            self._fit_setup()
+            self._train()
+        finally:
+            # interrupted training is logged up to the interruption
+            self._fit_end()
         self.training_stage = TrainingStage("idle")
         return self.model, self.optimizer
 
-- 
2.43.0


From 31c09ce7463385dab3d7e4449c24223d9c7db8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 123/131] fix: scalar tensors as hyperparameters failed with
 tensorboard

---
 qadence/ml_tools/callbacks/writer_registry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/ml_tools/callbacks/writer_registry.py b/qadence/ml_tools/callbacks/writer_registry.py
index c740d24..a29776a 100644
--- a/qadence/ml_tools/callbacks/writer_registry.py
+++ b/qadence/ml_tools/callbacks/writer_registry.py
@@ -195,6 +195,11 @@ class TensorBoardWriter(BaseWriter):
             hyperparams (dict): A dictionary of hyperparameters to log.
         """
         if self.writer:
+            # tensorboard takes the first item of tensors, which scalars do not have
+            hyperparams = {
+                k: v.item() if isinstance(v, Tensor) and v.ndim == 0 else v
+                for k, v in hyperparams.items()
+            }
             self.writer.add_hparams(hyperparams, {})
         else:
             raise RuntimeError(
-- 
2.43.0


From df52a29eac274b54633d35483dbc659a1963a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:37 +0000
Subject: [PATCH 124/131] fix: programs without parameters could be run only
 once by the pulser backend

---
 qadence/backends/pulser/backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index e7615f7..ec23690 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from collections import Counter
 from collections.abc import Iterable
-from copy import copy
+from copy import copy, deepcopy
 from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any
@@ -174,7 +174,8 @@ class Backend(BackendInterface):
             raise ValueError(f"Please, provide values for the following parameters: {missing}")
 
         if param_values == {}:
-            return circuit.native
+            # addressing patterns and measurements are added to what is returned
+            return deepcopy(circuit.native)
 
         numpy_param_values = {
             k: v.detach().cpu().numpy()
-- 
2.43.0


From 21a23ae519cf3ecf87e3f1e2c1ada8776d0a9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:31 +0000
Subject: [PATCH 125/131] fix: filling identities failed for parallel blocks
 that leave wires between them

---
 qadence/transpile/block.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 993ca3e..1f60d27 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -335,7 +335,12 @@ def _fill_kron(block: KronBlock, start: int, stop: int) -> list[AbstractBlock]:
 
     def append_ids(block: AbstractBlock, total: int) -> AbstractBlock:
         qs = block.qubit_support
-        ids = [I(i) for i in range(min(qs), max(qs)) for _ in range(length(block), total)]
+        ids = [
+            I(i)
+            for i in range(min(qs), max(qs))
+            if i in qs  # wires in between can belong to another subblock
+            for _ in range(length(block), total)
+        ]
         bs = [block] + ids
         return chain(*bs)
 
@@ -357,7 +362,8 @@ def _fill_kron(block: KronBlock, start: int, stop: int) -> list[AbstractBlock]:
     bs = [append_ids(b, max_len) for b in bs]
 
     # fill potentially completely empty wires
-    bs += [id_chain(i, max_len) for i in (set(range(start, stop + 1)) - set(block.qubit_support))]
+    filled = {i for b in bs for i in b.qubit_support}
+    bs += [id_chain(i, max_len) for i in (set(range(start, stop + 1)) - filled)]
 
     return sorted(bs, key=lambda x: x.qubit_support)
 
-- 
2.43.0


From 36f613c43ba4c1e79b7144b5428ac6ae38f9d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:46 +0000
Subject: [PATCH 126/131] fix: negative powers of blocks were silently the
 identity

---
 qadence/blocks/abstract.py  | 2 ++
 qadence/blocks/primitive.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qadence/blocks/abstract.py b/qadence/blocks/abstract.py
index 85c2e99..1353277 100644
--- a/qadence/blocks/abstract.py
+++ b/qadence/blocks/abstract.py
@@ -184,6 +184,8 @@ class AbstractBlock(ABC):
     def __pow__(self, power: int) -> AbstractBlock:
         from qadence.blocks.utils import chain
 
+        if power < 0:
+            raise ValueError(f"Can only raise a block to a non-negative power. Got {power}.")
         return chain(self for _ in range(power))
 
     def __neg__(self) -> AbstractBlock:
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 33589fd..5c71f6f 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -294,6 +294,8 @@ class ScaleBlock(ParametricBlock):
     def __pow__(self, power: int) -> AbstractBlock:
         from qadence.blocks.utils import chain
 
+        if power < 0:
+            raise ValueError(f"Can only raise a block to a non-negative power. Got {power}.")
         expr = self.parameters.parameter
         return ScaleBlock(chain(self.block for _ in range(power)), expr**power)
 
-- 
2.43.0


From afe6f2a44d27af5eb8cfa1fdedea5ee30c7eac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:30 +0000
Subject: [PATCH 127/131] fix: a generator's parameter named parameter replaced
 the time of its evolution

---
 qadence/operations/ham_evo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c492a1b..31970fe 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -151,6 +151,8 @@ class HamEvo(TimeEvolutionBlock):
                 f"Generator of type {type(generator)} not supported.\
                             If you're using a numpy.ndarray, please cast it to a torch tensor."
             )
+        # The parameters of the generator can have any name, also those of the evolution.
+        params = {f"generator_{name}": param for name, param in params.items()}
         if duration is not None:
             params = {"duration": Parameter(duration), **params}
         params = {"parameter": Parameter(parameter), **params}
-- 
2.43.0


From 5c73d6a1f724a96c8df785242ff1c26190b2201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 128/131] fix: expectation values changed with the endianness
 asked for

---
 qadence/backends/horqrux/backend.py  | 1 -
 qadence/backends/pulser/backend.py   | 6 ++----
 qadence/backends/pyqtorch/backend.py | 5 +----
 qadence/measurements/shadow.py       | 4 +---
 qadence/measurements/utils.py        | 4 ++--
 5 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 0670d21..fd0d4f3 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -156,7 +156,6 @@ class Backend(BackendInterface):
                 circuit,
                 param_circuits,
                 state,
-                endianness,
                 horqify_state=True,
                 unhorqify_state=False,
             )
diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index ec23690..407be9b 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -349,9 +349,8 @@ class Backend(BackendInterface):
         )
         if mitigation is None:
             if noise is None:
-                state = self.run(
-                    circuit, param_values=param_circuit, state=state, endianness=endianness
-                )
+                # observables act on states in the native endianness
+                state = self.run(circuit, param_values=param_circuit, state=state)
                 support = sorted(list(circuit.abstract.register.support))
                 res_list = [
                     obs.native(state, param_observables, qubit_support=support)
@@ -365,7 +364,6 @@ class Backend(BackendInterface):
                     circuit=circuit,
                     param_values=param_circuit,
                     state=state,
-                    endianness=endianness,
                     noise=noise,
                 )
                 support = sorted(list(circuit.abstract.register.support))
diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 6bcbefb..4756ac4 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -207,7 +207,6 @@ class Backend(BackendInterface):
             circuit,
             param_values=param_circuit,
             state=state,
-            endianness=endianness,
             pyqify_state=True,
             # we are calling  the native observable directly, so we want to use pyq shapes
             unpyqify_state=False,
@@ -260,9 +259,7 @@ class Backend(BackendInterface):
             list_obs = list_obs * len(list_circ)
 
         for vals_circ, vals_obs in zip(list_circ, list_obs):
-            wf = self.run(
-                circuit, vals_circ, state, endianness, pyqify_state=True, unpyqify_state=False
-            )
+            wf = self.run(circuit, vals_circ, state, pyqify_state=True, unpyqify_state=False)
             exs = torch.cat([obs.native.expectation(wf, vals_obs) for obs in observables], 0)
             list_expvals.append(exs)
 
diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 600227f..7807af3 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -144,7 +144,6 @@ def classical_shadow(
             circuit=conv_circ,
             param_values=param_values,
             state=state,
-            endianness=endianness,
         )
         all_rotations = [
             QuantumCircuit(circuit.n_qubits, rots) if rots else QuantumCircuit(circuit.n_qubits)
@@ -161,7 +160,7 @@ def classical_shadow(
         ]
 
     for i in range(shadow_size):
-        # Reverse endianness to get sample bitstrings in ILO.
+        # Bit strings are matched with the bases of the qubits in their native order.
         conv_circ = backend.circuit(all_rotations[i])
         batch_samples = backend.sample(
             circuit=conv_circ,
@@ -169,7 +168,6 @@ def classical_shadow(
             n_shots=1,
             state=initial_state,
             noise=noise,
-            endianness=endianness,
         )
         shadow.append(batch_samples)
     bitstrings = list()
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index d613609..bdccbb8 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -246,7 +246,7 @@ def iterate_pauli_decomposition(
         state: Initial state.
         backend: A backend for circuit execution.
         noise: A noise model to use.
-        endianness: Endianness of the resulting bit strings.
+        endianness: Endianness of the output, which expectation values do not depend on.
 
     Returns: A torch.Tensor of bit strings n_shots x n_qubits.
     """
@@ -270,13 +270,13 @@ def iterate_pauli_decomposition(
             # already performed at the higher QuantumModel level.
             # Therefore, parameters passed here have already been embedded.
             conv_circ = backend.circuit(rotated_circuit)
+            # The support is read off the bit strings in their native order.
             samples = backend.sample(
                 circuit=conv_circ,
                 param_values=param_values,
                 n_shots=n_shots,
                 state=state,
                 noise=noise,
-                endianness=endianness,
             )
             estim_values = empirical_average(samples=samples, support=support)
             estimated_values.append(estim_values * _coefficient(pauli_term[1]))
-- 
2.43.0


From a6512392c064811222b7085d019e01149b39956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 129/131] fix: noisy density matrices of the Pulser backend
 were half reordered in little endian

---
 qadence/backends/pulser/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index 407be9b..49432a0 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -291,7 +291,10 @@ class Backend(BackendInterface):
         if endianness != self.native_endianness:
             from qadence.transpile import invert_endianness
 
-            noisy_batched_dms = invert_endianness(noisy_batched_dms)
+            # both the rows and the columns of each density matrix are permuted
+            indices = torch.arange(2**circuit.abstract.n_qubits).unsqueeze(0)
+            permuted = invert_endianness(indices).squeeze(0)
+            noisy_batched_dms = noisy_batched_dms[..., permuted, :][..., permuted]
         return noisy_batched_dms
 
     def sample(
-- 
2.43.0


From b131e5795ca0a1309984ecd4f14eb204a1872321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 130/131] fix: counts of different totals were averaged over
 the first one's shots

---
 qadence/measurements/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index bdccbb8..dc12b3c 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -171,9 +171,9 @@ def empirical_average(samples: List, support: List[int]) -> Tensor:
     """
     PARITY = -1
     counters = get_counts(samples, support)
-    n_shots = np.sum(list(counters[0].values()))
     expectations = []
     for counter in counters:
+        n_shots = np.sum(list(counter.values()))
         counter_exps = []
         for bitstring, count in counter.items():
             counter_exps.append(count * PARITY ** (np.sum([int(bit) for bit in bitstring])))
-- 
2.43.0


From 0cdd4c0fb1e58c87083d9a79d823f53eba35c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 131/131] fix: observables without distinct tags were missing
 from a model's list

---
 qadence/model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index 0c30ae1..ae8ea6d 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -712,12 +712,15 @@ class QuantumModel(nn.Module):
         if self._observable is None:
             return "No observable set."
         else:
-            return {
-                obs.original.tag if obs.original.tag else "Obs.": block_to_mathematical_expression(
-                    obs.original
-                )
-                for obs in self._observable
-            }
+            expressions: dict[str, str] = {}
+            for obs in self._observable:
+                name = tag = obs.original.tag or "Obs."
+                i = 1
+                while name in expressions:  # several observables may have the same tag or none
+                    i += 1
+                    name = f"{tag} ({i})"
+                expressions[name] = block_to_mathematical_expression(obs.original)
+            return expressions
 
     @property
     def device(self) -> torch.device:
-- 
2.43.0

