From 3a6d04fdfe26b898ec6540440ba752da6d6d43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 1/9] fix: transpose the blocks in BlockDiagonal's rmatmat and
 from_inner

The blocks of a product of two block-diagonal matrices are not symmetric in
general, so multiplying with the transpose must transpose them.
---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..a42abc6 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        transposed = self.__class__(self._blocks.transpose(1, 2), self._last.T)
+        return transposed @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From a788e30a21c84925a115a52c605e6f7c4cedf99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 2/9] fix: reject diagonal blocks whose dimension is not
 BLOCK_DIM

The chained comparison 'a != b != c' only rejected blocks that are non-square.
---
 singd/structures/blockdiagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index a42abc6..19736b5 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -90,7 +90,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             raise ValueError(
                 f"Diagonal blocks must be 3-dimensional, got {blocks.ndim}."
             )
-        if blocks.shape[1] != blocks.shape[2] != self.BLOCK_DIM:
+        if tuple(blocks.shape[1:]) != (self.BLOCK_DIM, self.BLOCK_DIM):
             raise ValueError(
                 f"Diagonal blocks must be square with dimension {self.BLOCK_DIM},"
                 f" got {blocks.shape[1:]} instead."
-- 
2.43.0


From 5167effcc444d29f86190688d4f9bc3934a09d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 3/9] fix: reduce non-contiguous tensors of a structured matrix
 in place

'all_reduce' reduced the temporary created by '.contiguous()', so the result
for a non-contiguous tensor was lost.
---
 singd/structures/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..eef0eb2 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,8 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            # NOTE Reduce into the registered tensor itself, not into a copy of it
+            tensor.data = tensor.data.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 11ee73ed4833537a6f9f88ff24fe1171e6cb17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 4/9] fix: leave the passed state untouched in load_state_dict

---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..3bfc83c 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -1,5 +1,6 @@
 """Implements structured inverse-free KFAC."""
 
+from copy import deepcopy
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
@@ -885,6 +886,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        # NOTE Work on a copy, such that the passed state is neither modified here nor
+        # by the following steps of this optimizer
+        state_dict = deepcopy(state_dict)
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From 3e448c762048378f15b40011d43d794992dc7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 5/9] fix: average H_K over processes for summed losses

---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 3bfc83c..7cb1f31 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -624,7 +624,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if dist.is_initialized():
             # all-reduce across devices (computes average by default).
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
-            H_K.all_reduce(op=op)
+            # NOTE `H_K` is an average over data points, irrespective of the loss
+            H_K.all_reduce(op=dist.ReduceOp.AVG)
             H_C.all_reduce(op=op)
 
         # store or update existing quantities (they get flushed in `.step`)
-- 
2.43.0


From 64ee8a163fe47907cf5856164a707e0c180c80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 6/9] fix: reject negative integer rates

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cb1f31..d0e9b8f 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -211,7 +211,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if isinstance(x, (int, float)) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From 0f522d319a420175a5a210cb587b32f23734d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 7/9] fix: pre-condition in the precision of each factor

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index d0e9b8f..4def374 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -700,7 +700,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From d060541d37a629b283c65d17eb8d847e04b23f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 8/9] fix: only update the parameters of a layer that were
 registered

---
 singd/optim/optimizer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 4def374..4174e19 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -277,7 +277,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[module.weight.data_ptr()]
+        # NOTE The layer's registered parameters are all in the same group
+        group_idx = next(
+            self.param_to_group_idx[p.data_ptr()]
+            for p in module.parameters()
+            if p.data_ptr() in self.param_to_group_idx
+        )
         return self.param_groups[group_idx][entry]
 
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
@@ -797,6 +802,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                # only update parameters that were handed to the optimizer
+                if p.data_ptr() not in self.param_to_group_idx:
+                    continue
+
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From 91c1cbb614b5b918db83aeaee215be95831aa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 9/9] fix: Frobenius norm of recursive matrices with an empty
 substructure

---
 singd/structures/blockdiagonal.py | 4 +---
 singd/structures/hierarchical.py  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 19736b5..d4a38d5 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -336,9 +336,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..310ea06 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -360,9 +360,7 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
-- 
2.43.0

