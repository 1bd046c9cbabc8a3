from mkbug import bug
O, U = "singd/optim/optimizer.py", "singd/optim/utils.py"
S = "singd/structures/"
PRE = """
import warnings
import torch
from torch import nn
from singd.optim.optimizer import SINGD
warnings.simplefilter("ignore")
torch.manual_seed(0)
"""
bug("eval-mode-not-collected", "C15", [
 (O, "if is_grad_enabled() and self.steps % T == 0:", "if is_grad_enabled() and module.training and self.steps % T == 0:")], PRE + """
m = nn.Linear(2, 2)
opt = SINGD(m, T=1)
m.eval()  # e.g. fine-tuning with frozen batch statistics
m(torch.rand(3, 2)).sum().backward()
assert "" in opt.H_Ks
""", "a model in evaluation mode that is trained nevertheless",
"curvature is not collected although gradients are enabled")
bug("lr-cov-C-uses-K-norm", "C14", [
 (O, "beta1_C /= max(1.0, new_m_C.infinity_vector_norm())", "beta1_C /= max(1.0, new_m_K.infinity_vector_norm())")], PRE + """
m = nn.Linear(2, 2)
opt = SINGD(m, T=1, lr_cov=0.1, normalize_lr_cov=True, alpha1=0.0, loss_average=None, structures=("diagonal", "diagonal"))
x = 100 * torch.rand(3, 2)
y = m(x)
y.backward(0.1 * torch.ones_like(y))
H_K, H_C = opt.H_Ks[""].to_dense(), opt.H_Cs[""].to_dense()
opt.step()
I = torch.eye(2)
mC = 0.5 * (H_C * H_K.diag().mean() + 0.001 * I - I)
want = I - 0.1 / max(1.0, mC.abs().max().item()) * mC
assert torch.allclose(opt.Cs[""].to_dense(), want, rtol=1e-4), (opt.Cs[""].to_dense(), want)
""", "normalised rates and factors whose momenta have different norms, at least one above 1",
"the rate of C is normalised with the norm of K's momentum")
bug("hyperparameters-of-first-module", "C19", [
 (O, '''        """Compute natural gradients and update parameters."""
        for module in self.module_names:
''', '''        """Compute natural gradients and update parameters."""
        momentum = None
        for module in self.module_names:
'''),
 (O, '''            momentum = self._get_param_group_entry(module, "momentum")
''', '''            if momentum is None:
                momentum = self._get_param_group_entry(module, "momentum")
''')], PRE + """
m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
opt = SINGD(m, [dict(params=list(m[0].parameters())), dict(params=list(m[1].parameters()), momentum=0.0)])
m(torch.rand(3, 2)).sum().backward()
opt.step()
assert "momentum_buffer" not in opt.state[m[1].weight]
""", "two parameter groups with different momentum",
"all layers are updated with the momentum of the first layer's group")
bug("ddp-reduce-accumulated", "C23", [
 (O, """            H_C.all_reduce(op=op)

""", "\n"),
 (O, """            self.H_Cs[module_name].add_(H_C) if module_name in self.H_Cs else H_C
        )
""", """            self.H_Cs[module_name].add_(H_C) if module_name in self.H_Cs else H_C
        )
        if dist.is_initialized():
            self.H_Cs[module_name].all_reduce(op=op)
""")], PRE + """
import torch.distributed as dist
import tempfile, os
import torch.multiprocessing as mp
def run(rank, f, q):
    dist.init_process_group("gloo", init_method="file://" + f, rank=rank, world_size=2)
    real = dist.all_reduce  # gloo has no average
    def all_reduce(t, op=dist.ReduceOp.SUM, group=None, async_op=False):
        real(t)
        if op == dist.ReduceOp.AVG:
            t /= 2
    dist.all_reduce = all_reduce
    m = nn.Linear(2, 2, bias=False)
    m.weight.data.fill_(1.0)
    opt = SINGD(m, T=1, loss_average=None)
    for x in ([[1.0, 0.0], [0.0, 1.0]], [[2.0, 1.0], [1.0, 3.0]]):
        m(torch.tensor([x[rank]])).sum().backward()
    if rank == 0:
        q.put(opt.H_Cs[""].to_dense().tolist())
    dist.destroy_process_group()
if __name__ == "__main__":
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    with tempfile.TemporaryDirectory() as d:
        ps = [ctx.Process(target=run, args=(r, d + "/s", q)) for r in range(2)]
        [p.start() for p in ps]
        H = q.get(timeout=120)
        [p.join() for p in ps]
    # two samples in each of the two passes, gradient of ones
    assert torch.allclose(torch.tensor(H), 4 * torch.ones(2, 2)), H
""", "distributed training with a summed loss and at least two backward passes before a step",
"the curvature of earlier passes is reduced again with every later pass")
bug("hier-eye-shared-blocks", "C07", [
 (S + "hierarchical.py", "        E = supported_eye(K2, dtype=dtype, device=device)", "        E = A if K1 == K2 else supported_eye(K2, dtype=dtype, device=device)")], PRE + """
from singd.structures.hierarchical import Hierarchical15_15Matrix as H
M = H.eye(31)
M.diag_add_(1.0)
assert torch.equal(M.to_dense(), 2 * torch.eye(31))
""", "a hierarchical identity whose outer blocks have the same size (dimension 30 and above with the 15_15 structure)",
"the two outer blocks share memory, in-place updates hit both")
bug("infinity-norm-max-before-abs", "C06", [
 (S + "base.py", "return max(t.abs().max() for", "return max(t.max().abs() for")], PRE + """
from singd.structures.diagonal import DiagonalMatrix
assert DiagonalMatrix(torch.tensor([1.0, -3.0])).infinity_vector_norm() == 3
""", "a matrix whose entry of largest magnitude is negative",
"the largest entry is taken before the absolute value")
bug("conv-dim-square-kernel", "C24", [
 (O, "            dim_K = module.weight.shape[1:].numel()", "            dim_K = module.weight.shape[1] * module.weight.shape[2] ** 2")], PRE + """
m = nn.Conv2d(2, 3, (1, 3), bias=False)
assert SINGD.preconditioner_dims(m) == (6, 3)
SINGD(m)
""", "a convolution with a non-square kernel",
"the input factor has the size for a square kernel")
bug("recursive-transposed-block", "C11", [
 (S + "recursive.py", '''        if B.shape != (dim_A, dim_C):
''', '''        if B.numel() != dim_A * dim_C:
''')], PRE + """
from singd.structures.recursive import RecursiveTopRightMatrixTemplate
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
class R(RecursiveTopRightMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (3, float("inf")), DenseMatrix, DiagonalMatrix
R(DenseMatrix(torch.rand(3, 3)), torch.rand(3, 2), DiagonalMatrix(torch.rand(2)))
try:
    R(DenseMatrix(torch.rand(3, 3)), torch.rand(2, 3), DiagonalMatrix(torch.rand(2)))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""", "an off-diagonal block with the right number of entries in the wrong shape",
"the constructor accepts a transposed block")
bug("small-scale-kept", "C17", [
 (O, "        if prev_grad_scale != 1.0:", "        if prev_grad_scale > 1.0:")], PRE + """
def run(scales):
    torch.manual_seed(0)
    m = nn.Linear(2, 2)
    opt = SINGD(m, T=1, lr_cov=0.1, loss_average=None, init_grad_scale=scales[0])
    for s in scales:
        opt.zero_grad()
        opt.set_current_grad_scale(s)
        (s * m(torch.rand(3, 2)).sum()).backward()
        opt.step()
    return m.weight.data
assert torch.allclose(run([1.0] * 4), run([0.25, 0.5, 2.0, 0.5]), atol=1e-5)
""", "loss scales below one",
"the curvature is not divided by the previous scale while the update assumes that it was")
bug("all-reduce-skips-single-entries", "C10", [
 (S + "base.py", '''        for _, tensor in self.named_tensors():
            # NOTE''', '''        for tensor in [t for _, t in self.named_tensors() if t.numel() > 1]:
            # NOTE''')], PRE + """
import torch.distributed as dist
from singd.structures.diagonal import DiagonalMatrix
seen = []
dist.all_reduce = lambda t, **k: seen.append(t)
DiagonalMatrix(torch.ones(1)).all_reduce()
assert len(seen) == 1
""", "a component with exactly one entry",
"components with one entry are not reduced")
bug("hook-keeps-factor-update", "C16", [
 (O, "        H_K = K.from_inner(X=a.T)", "        H_K = K.from_inner(X=a.T) if self.steps else K.from_mat_inner(a.T)")], PRE + """
m = nn.Linear(2, 2, bias=False)
opt = SINGD(m, T=1, loss_average=None)
opt.Ks[""].mul_(2.0)  # e.g. restored from elsewhere
x = torch.rand(3, 2)
m(x).sum().backward()
assert torch.allclose(opt.H_Ks[""].to_dense(), 4 * x.T @ x / 3)
""", "factors that are not the identity at step 0, for instance user-initialised ones",
"the first step's curvature ignores the current factor")
