from mkbug import bug
S = "singd/structures/"
bug("block-negative-slice", "C04", [(S + "blockdiagonal.py",
"""        last_start = num_blocks * cls.BLOCK_DIM
        last = mat[last_start:, last_start:]

        blocks_end = num_blocks * cls.BLOCK_DIM
""", """        blocks_end = num_blocks * cls.BLOCK_DIM
        last_dim = mat.shape[0] - blocks_end
        last = mat[-last_dim:, -last_dim:]

""")], """
import torch
from singd.structures.blockdiagonal import Block3DiagonalMatrix as B
for d in (1, 2, 3, 4, 6, 7):
    A = torch.arange(float(d * d)).reshape(d, d)
    A = A + A.T
    D = B.from_dense(A).to_dense()
    for i in range(d):
        for j in range(d):
            assert D[i, j] == (A[i, j] if i // 3 == j // 3 else 0)
""", "a dimension that is a multiple of the block size (no remainder block)",
"from_dense slices the remainder with a negative length, which is the whole matrix when there is no remainder")
bug("hier-inner-transposed-E", "C05", [(S + "hierarchical.py",
"D_new = 2 * (B_E.T @ B_C + self.E.T @ self.D)", "D_new = 2 * (B_E.T @ B_C + self.E @ self.D)")], """
import torch
from singd.structures.hierarchical import Hierarchical3_2Matrix as H
torch.manual_seed(0)
A, B, C, D, E = torch.rand(3, 3), torch.rand(3, 4), torch.rand(2), torch.rand(2, 2), torch.rand(2, 2)
K = H(A, B, C, D, E)
G = K.to_dense().T @ K.to_dense()
assert torch.allclose(K.from_inner().to_dense(), H.from_dense(G).to_dense(), atol=1e-5)
""", "a bottom-right block E that is not symmetric, and X=None",
"from_inner multiplies E instead of its transpose onto D")
bug("diag-mul-one-alias", "C09", [(S + "diagonal.py",
"        return DiagonalMatrix(self._mat_diag * other)\n",
"        if isinstance(other, float) and other == 1.0:\n            return DiagonalMatrix(self._mat_diag)\n        return DiagonalMatrix(self._mat_diag * other)\n")], """
import torch
from singd.structures.diagonal import DiagonalMatrix as D
M = D(torch.ones(4))
N = M * 1.0
N.mul_(5.0)
assert torch.equal(M._mat_diag, torch.ones(4))
""", "a product with exactly 1.0, later changed in place",
"the product shares memory with its operand")
bug("hier-eye-device", "C08", [(S + "hierarchical.py",
"C = ones(diag_dim, dtype=dtype, device=device)", "C = ones(diag_dim, dtype=dtype)")], """
import torch
from singd.structures.hierarchical import Hierarchical3_2Matrix as H
M = H.eye(9, device=torch.device("meta"))
assert all(t.device.type == "meta" for _, t in M.named_tensors())
""", "a device other than the default one", "eye leaves its middle diagonal on the default device")
bug("allreduce-group", "C10", [(S + "base.py",
"                    dist.all_reduce(tensor, op=op, group=group, async_op=True)",
"                    dist.all_reduce(tensor, op=op, async_op=True)")], """
import torch, torch.distributed as dist
from singd.structures.dense import DenseMatrix
seen = []
def fake(t, op=None, group=None, async_op=False):
    seen.append(group)
dist.all_reduce = fake
DenseMatrix(torch.eye(2)).all_reduce(group="g", async_op=True)
DenseMatrix(torch.eye(2)).all_reduce(group="g")
assert seen == ["g", "g"], seen
""", "an asynchronous reduction over a process group that is not the default one",
"the reduction runs over all processes instead of the group")
bug("hier-check-and", "C11", [(S + "hierarchical.py",
"if A.shape[0] > self.MAX_K1 or E.shape[0] > self.MAX_K2:",
"if A.shape[0] > self.MAX_K1 and E.shape[0] > self.MAX_K2:")], """
import torch
from singd.structures.hierarchical import Hierarchical3_2Matrix as H
for a, e in ((4, 1), (3, 3)):
    try:
        H(torch.zeros(a, a), torch.zeros(a, e + 1), torch.zeros(1), torch.zeros(e, 1), torch.zeros(e, e))
    except ValueError:
        continue
    raise SystemExit("accepted")
""", "only one of the two dense corner blocks is too large", "the constructor accepts a malformed matrix")
bug("block-matmul-transposed", "C01", [(S + "blockdiagonal.py",
"""                self._last.to(compute_dtype) @ other_last.to(compute_dtype)
            ).to(out_dtype)""",
"""                self._last.T.to(compute_dtype) @ other_last.to(compute_dtype)
            ).to(out_dtype)""")], """
import torch
from singd.structures.blockdiagonal import Block3DiagonalMatrix as B
torch.manual_seed(0)
M = B(torch.rand(2, 3, 3), torch.rand(2, 2))
X = torch.rand(8, 3)
assert torch.allclose(M @ X, M.to_dense() @ X, atol=1e-5)
""", "a remainder block that is not symmetric", "the product uses the transpose of the remainder block")
