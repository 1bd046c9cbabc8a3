from mkbug import bug
from bugs_more import O, U, S, PRE
bug("nested-substructures-by-name", "C03", [
 (S + "recursive.py", '''                for name, tensor in substructure.named_tensors():
                    yield f"{name}.{subname}", tensor''', '''                for name in substructure._tensor_names:
                    yield f"{name}.{subname}", getattr(substructure, name)''')], PRE + """
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.recursive import RecursiveTopRightMatrixTemplate as TR
INF = float("inf")
class Inner(TR):
    MAX_DIMS, CLS_A, CLS_C = (1, INF), DenseMatrix, DiagonalMatrix
class Outer(TR):
    MAX_DIMS, CLS_A, CLS_C = (2, INF), DenseMatrix, Inner
m = Outer.eye(5)
before = m.to_dense()
m.mul_(3.0)
assert torch.allclose(m.to_dense(), 3 * before), m.to_dense()
""", "a recursive matrix one of whose blocks is recursive itself",
"in-place updates and reductions skip the innermost components")
bug("ones-in-default-dtype", "C12", [
 (U, '''        x = reduce(x, "b ... d_in -> b d_in", "mean")

    if layer.bias is not None:
        x = cat([x, x.new_ones(x.shape[0], 1)], dim=1)
''', '''        x = reduce(x, "b ... d_in -> b d_in", "mean")

    if layer.bias is not None:
        x = F.pad(x.float(), (0, 1), value=1.0)
''')], PRE + """
from singd.optim.utils import process_input
x = torch.rand(3, 2).to(torch.bfloat16)
assert process_input(x, nn.Linear(2, 2), "expand").dtype == torch.bfloat16
""", "inputs in half precision and a bias",
"the processed input has another precision than the input it was given")
bug("conv-shared-positions-square", "C13", [
 (U, "num_loss_terms *= g.shape[2:].numel()  # spatial size = O1 * O2", "num_loss_terms *= g.shape[-1] ** 2  # spatial size = O1 * O2")], PRE + """
from singd.optim.utils import process_grad_output
g = torch.ones(2, 3, 4, 1)
r = process_grad_output(g, nn.Conv2d(1, 3, 1), "batch+sequence", "expand")
assert torch.allclose(r, torch.full_like(r, 8**0.5)), r[0, 0]
""", "non-square feature maps and a loss averaged over positions",
"the number of averaged loss terms is wrong")
bug("unscaling-assumes-constant-scale", "C17", [
 (O, "grad_unscaling = prev_grad_scale / grad_scale**2", "grad_unscaling = 1.0 / grad_scale")], PRE + """
def run(scales):
    torch.manual_seed(0)
    m = nn.Linear(2, 2)
    opt = SINGD(m, T=1, init_grad_scale=scales[0], lr_cov=0.1, loss_average=None)
    for s in scales:
        opt.zero_grad()
        opt.set_current_grad_scale(s)
        (s * m(torch.rand(3, 2)).sum()).backward()
        opt.step()
    return m.weight.data
assert torch.allclose(run([1.0] * 4), run([2.0, 2.0, 8.0, 8.0]), rtol=1e-4)
""", "a loss scale that changes between two steps",
"the curvature is un-scaled with the wrong power of the previous scale")
bug("skipped-step-not-counted", "C17", [
 (O, '''            self._step()

        self.steps += 1
''', '''            self._step()
            self.steps += 1
''')], PRE + """
m = nn.Linear(2, 2)
opt = SINGD(m, T=1)
opt.grad_scale, opt.found_inf = torch.tensor([2.0]), torch.tensor([1.0])
m(torch.rand(3, 2)).sum().backward()
opt.step()
assert opt.steps == 1
""", "a step skipped because of infinities",
"a skipped step is not counted, so that the next step uses the stale scale of the skipped one")
bug("conv-grad-view", "C18", [
 (O, "module.weight.grad.data.flatten(start_dim=1)", "module.weight.grad.data.view(module.weight.shape[0], -1)")], PRE + """
m = nn.Conv2d(2, 2, 2).to(memory_format=torch.channels_last)
opt = SINGD(m, T=1)
m(torch.rand(3, 2, 4, 4).to(memory_format=torch.channels_last)).sum().backward()
m.weight.grad = m.weight.grad.to(memory_format=torch.channels_last)
opt.step()
""", "convolutions in the channels-last memory format",
"the gradient cannot be viewed as a matrix and the step fails")
bug("lr-from-defaults", "C19", [
 (O, 'lr = self._get_param_group_entry(module, "lr")\n', 'lr = self.defaults["lr"]\n')], PRE + """
m = nn.Linear(2, 2)
opt = SINGD(m, lr=0.1)
opt.param_groups[0]["lr"] = 0.0  # as a scheduler does
before = m.weight.data.clone()
m(torch.rand(3, 2)).sum().backward()
opt.step()
assert torch.equal(before, m.weight.data)
""", "a learning rate that is changed after construction or set per group",
"the learning rate of the constructor is used for ever")
bug("approximation-checked-in-first-group", "C22", [
 (O, '''            if group["kfac_approx"] not in ["expand", "reduce"]:''', '''            if self.defaults["kfac_approx"] not in ["expand", "reduce"]:''')], PRE + """
m = nn.Linear(2, 2)
try:
    SINGD(m, [dict(params=list(m.parameters()), kfac_approx="nope")])
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""", "an unsupported approximation given in a parameter group",
"only the default approximation is checked")
bug("allreduce-sum-for-sequence-means", "C23", [
 (O, '''            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)''', '''            op = dist.ReduceOp.AVG if loss_average == "batch" else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)''')], PRE + """
import torch.distributed as dist
m = nn.Linear(2, 2)
opt = SINGD(m, T=10**6, loss_average="batch+sequence")
opt.steps, opt._grad_scales = 1, {0: 1.0, 1: 1.0}
seen = []
dist.is_initialized = lambda: True
dist.all_reduce = lambda t, op=None, **k: seen.append(op)
m(torch.rand(3, 4, 2)).mean().backward()
opt.step()
assert seen == [dist.ReduceOp.AVG], seen
""", "distributed training with a loss averaged over batch and sequence",
"the update direction is summed over processes instead of averaged")
bug("momenta-by-default-alpha", "C24", [
 (O, '''            alpha1 = self._get_param_group_entry(module, "alpha1")
            if alpha1 != 0.0:
                self.m_Ks''', '''            alpha1 = self.defaults["alpha1"]
            if alpha1 != 0.0:
                self.m_Ks''')], PRE + """
m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
opt = SINGD(m, [dict(params=list(m[0].parameters())), dict(params=list(m[1].parameters()), alpha1=0.9)], alpha1=0.0)
assert "1" in opt.m_Ks and "1" in opt.m_Cs
""", "groups that switch the factors' momentum on while the default is off",
"no momentum buffers exist for layers that use momentum")
bug("block-last-full", "C11", [
 (S + "blockdiagonal.py", "if last.shape[0] >= self.BLOCK_DIM or last.shape[1] >= self.BLOCK_DIM:", "if last.shape[0] > self.BLOCK_DIM or last.shape[1] > self.BLOCK_DIM:")], PRE + """
from singd.structures.blockdiagonal import Block3DiagonalMatrix as B
try:
    B(torch.zeros(1, 3, 3), torch.zeros(3, 3))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""", "a remainder block as large as a full block",
"an inconsistent pair of components is accepted")
bug("zero-alpha-returns-nothing", "C03", [
 (S + "base.py", '''        for (_, tensor), (_, tensor_other) in zip(
            self.named_tensors(), other.named_tensors()
        ):
            tensor.add_(tensor_other, alpha=alpha)

        return self''', '''        if alpha == 0.0:
            return other

        for (_, tensor), (_, tensor_other) in zip(
            self.named_tensors(), other.named_tensors()
        ):
            tensor.add_(tensor_other, alpha=alpha)

        return self''')], PRE + """
from singd.structures.dense import DenseMatrix as D
a, b = D.eye(2), D.zeros(2)
assert a.add_(b, alpha=0.0) is a
""", "a multiple of exactly zero",
"the other operand is returned, so that chained updates change it instead of the target")
bug("toeplitz-main-diagonal-averaged-twice", "C05", [
 (S + "triltoeplitz.py", "normalization = arange(dim, 0, step=-1, dtype=mat.dtype, device=mat.device)", "normalization = arange(dim, 0, step=-1, device=mat.device).to(mat.dtype).clamp_(max=256)")], PRE + """
from singd.structures.triltoeplitz import TrilToeplitzMatrix as T
m = T.from_mat_inner(torch.eye(300))
assert torch.allclose(m._lower_diags[0], torch.ones(())), m._lower_diags[0]
""", "matrices with more than 256 rows",
"the average over a long diagonal is divided by the wrong number")
bug("momentum-buffer-shared-with-step", "C19", [
 (O, '''                    if "momentum_buffer" not in param_state:
                        param_state["momentum_buffer"] = zeros_like(p.data)

                    p_momentum = param_state["momentum_buffer"]
                    p_momentum.mul_(momentum).add_(p_step)
                    p_step = p_momentum
''', '''                    if "momentum_buffer" not in param_state:
                        param_state["momentum_buffer"] = p_step
                    else:
                        param_state["momentum_buffer"].mul_(momentum).add_(
                            p_step, alpha=1.0 - momentum
                        )

                    p_step = param_state["momentum_buffer"]
''')], PRE + """
m = nn.Linear(1, 1, bias=False)
opt = SINGD(m, lr=1.0, momentum=0.5, T=10**6, weight_decay=0.0, structures=("dense", "dense"))
opt.steps, opt._grad_scales = 1, {0: 1.0}
deltas = []
for _ in range(2):
    old = m.weight.data.clone()
    m.weight.grad = torch.ones_like(m.weight)
    opt.step()
    deltas.append((old - m.weight.data).item())
assert abs(deltas[1] - 1.5 * deltas[0]) < 1e-5, deltas
""", "the second step with momentum",
"new steps enter the momentum buffer with weight 1 - momentum after the first")
