from mkbug import bug
O, U = "singd/optim/optimizer.py", "singd/optim/utils.py"
PRE = """
import warnings
import torch
from torch import nn
from singd.optim.optimizer import SINGD
warnings.simplefilter("ignore")
torch.manual_seed(0)
"""
bug("conv-groups-interleaved", "C12", [
 (U, '''    # average channel groups
    x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=groups)
    x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")

    x_unfold''', '''    # average channel groups
    x = reduce(x, "b (c_in g) i1 i2 -> b c_in i1 i2", "mean", g=groups)

    x_unfold'''),
 (U, '''    # average channel groups
    x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=groups)
    x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")

    # TODO''', '''    # average channel groups
    x = reduce(x, "b (c_in g) i1 i2 -> b c_in i1 i2", "mean", g=groups)

    # TODO''')], PRE + """
from singd.optim.utils import process_input
x = torch.rand(2, 4, 1, 1)
l = nn.Conv2d(4, 4, 1, groups=2, bias=False)
for a in ("expand", "reduce"):
    r = process_input(x.clone(), l, a) * 2**0.5
    assert torch.allclose(r, (x[:, :2] + x[:, 2:]).reshape(2, 2) / 2), a
""", "a convolution with at least two groups of at least two channels",
"both unfolding functions average over the wrong channels: neighbouring ones instead of one per group")
bug("linear-grad-first-shared-dim", "C13", [
 (U, "            num_loss_terms *= g.shape[1:-1].numel()", "            num_loss_terms *= g.shape[1] if g.ndim > 2 else 1")], PRE + """
from singd.optim.utils import process_grad_output
g = torch.rand(2, 3, 5, 4)
r = process_grad_output(g, nn.Linear(4, 4), "batch+sequence", "expand")
assert torch.allclose(r, g.reshape(30, 4) * 30**0.5)
""", "a linear layer with two or more shared dimensions and a mean over batch and sequence",
"the number of loss terms counts only the first shared dimension")
bug("lr-cov-schedule-updates", "C14", [
 (O, "            beta1_C = beta1_C(self.steps)", "            beta1_C = beta1_C(self.steps // T)")], PRE + """
seen = []
def f(t):
    seen.append(t)
    return 0.01
m = nn.Linear(2, 2)
opt = SINGD(m, lr_cov=f, T=2)
for t in range(4):
    opt.zero_grad()
    m(torch.rand(3, 2)).sum().backward()
    opt.step()
assert set(seen) == {0, 2}, seen
""", "a scheduled lr_cov and an update period above one, from the second update on",
"the factor C follows the schedule by number of updates instead of by step")
bug("hook-default-period", "C15", [
 (O, '''        T = self._get_param_group_entry(module, "T")
        if is_grad_enabled()''', '''        T = self.defaults["T"]
        if is_grad_enabled()''')], PRE + """
m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
opt = SINGD(m, [dict(params=list(m[0].parameters()), T=2), dict(params=list(m[1].parameters()), T=4)], T=4)
for t in range(4):
    opt.zero_grad()
    m(torch.rand(3, 2)).sum().backward()
    assert ("0" in opt.H_Ks) == (t % 2 == 0), t
    opt.step()
""", "a group whose update period differs from the default, at a step where they disagree",
"curvature is collected with the default period instead of the group's")
bug("skip-keeps-curvature", "C17", [
 (O, '''            for name in self.module_names.values():
                if name in self.H_Ks:
                    del self.H_Ks[name]
                if name in self.H_Cs:
                    del self.H_Cs[name]
''', '''            for name in self.module_names.values():
                if name in self.H_Ks and self.steps == 0:
                    del self.H_Ks[name]
                if name in self.H_Cs and self.steps == 0:
                    del self.H_Cs[name]
''')], PRE + """
m = nn.Linear(2, 2)
opt = SINGD(m, T=1)
for t in range(3):
    opt.zero_grad()
    m(torch.rand(3, 2)).sum().backward()
    if t == 1:
        opt.found_inf = torch.tensor(1.0)
    opt.step()
    opt.found_inf = torch.tensor(0.0)
    assert not opt.H_Ks and not opt.H_Cs, t
""", "a step after the first one that is skipped because of infinities and followed by another step",
"the curvature of the skipped step is added to the one of the next step")
bug("init-scale-ignored", "C17", [
 (O, "        if prev_grad_scale != 1.0:\n", "        if prev_grad_scale != 1.0 and self.steps > 0:\n")], PRE + """
def run(scale, **kw):
    torch.manual_seed(0)
    m = nn.Linear(2, 2)
    opt = SINGD(m, T=1, **kw)
    x = torch.rand(3, 2)
    (scale * m(x).pow(2).sum()).backward()
    opt.grad_scale = torch.tensor([scale])
    opt.step()
    return m.weight.detach()
assert torch.allclose(run(1.0), run(8.0, init_grad_scale=8.0), atol=1e-5)
""", "an initial gradient scale other than one, in the first step",
"the hook does not divide by the initial scale, the update still assumes that it did")
bug("grad-unscaled-in-place", "C18", [
 (O, "            grad_mat = grad_mat / grad_scale\n", "            grad_mat = grad_mat.div_(grad_scale)\n")], PRE + """
m = nn.Linear(2, 2, bias=False)
opt = SINGD(m)
m(torch.rand(3, 2)).sum().backward()
g = m.weight.grad.clone()
opt.grad_scale = torch.tensor([4.0])
opt.step()
assert torch.equal(m.weight.grad, g)
""", "a layer without bias and a gradient scale other than one", "the gradient of the weight is un-scaled in place")
bug("decay-after-momentum", "C19", [
 (O, '''                # add weight decay
                if weight_decay != 0.0:
                    p_step.add_(p.data, alpha=weight_decay)

''', ""), (O, '''                    p_step = p_momentum

''', '''                    p_step = p_momentum

                # add weight decay
                if weight_decay != 0.0:
                    p_step = p_step.add(p.data, alpha=weight_decay)

''')], PRE + """
m = nn.Linear(1, 1, bias=False)
opt = SINGD(m, lr=0.5, momentum=0.5, weight_decay=0.25, T=1000)
opt.steps = 1
opt.set_current_grad_scale(1.0)
w, b = m.weight.item(), 0.0
for _ in range(3):
    m.weight.grad = torch.ones(1, 1)
    opt.step()
    b = 0.5 * b + 1 + 0.25 * w
    w -= 0.5 * b
assert abs(m.weight.item() - w) < 1e-5
""", "momentum and weight decay both non-zero, from the second step on",
"weight decay is added after the momentum instead of going through it")
bug("hook-scales-grad", "C20", [
 (U, '''        # KFAC-expand approximation
        g = rearrange(g, "b ... d_out -> (b ...) d_out")
    else:
        # KFAC-reduce approximation
        g = reduce(g, "b ... d_out -> b d_out", "sum")

    return g * scaling
''', '''        # KFAC-expand approximation
        g = rearrange(g, "b ... d_out -> (b ...) d_out")
    else:
        # KFAC-reduce approximation
        g = reduce(g, "b ... d_out -> b d_out", "sum")

    return g if scaling == 1.0 else g * scaling
'''), (O, "            g = g / sqrt(prev_grad_scale)\n", "            g = g.div_(sqrt(prev_grad_scale))\n")], PRE + """
def run(opt):
    torch.manual_seed(0)
    m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
    if opt:
        SINGD(m, loss_average=None, init_grad_scale=4.0)
    m(torch.rand(3, 2)).sum().backward()
    return m[0].weight.grad
assert torch.equal(run(False), run(True))
""", "a linear layer, a summed loss, the expand approximation and a scale other than one",
"two sites together: un-scaling in place changes the gradient that flows through the network")
bug("state-without-curvature", "C21", [
 (O, '''        "H_Ks",
        "H_Cs",
    ]''', "    ]")], PRE + """
import copy
def make():
    torch.manual_seed(0)
    m = nn.Linear(2, 2)
    return m, SINGD(m, T=1)
m, opt = make()
x = torch.rand(3, 2)
m(x).pow(2).sum().backward()
n, opt2 = make()
opt2.load_state_dict(copy.deepcopy(opt.state_dict()))
for p, q in zip(m.parameters(), n.parameters()):
    q.grad = p.grad.clone()
opt.step()
opt2.step()
assert torch.equal(opt.Ks[""].to_dense(), opt2.Ks[""].to_dense())
""", "a state that is saved between a backward pass and its step", "the collected curvature is not part of the saved state")
bug("frozen-parameter-selected", "C22", [
 (O, "                trainable.extend(mod_trainable)\n", "                trainable.extend(mod.parameters() if mod_trainable else [])\n")], PRE + """
m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
m[0].bias.requires_grad_(False)
opt = SINGD(m)
assert {p.data_ptr() for p in opt.param_groups[0]["params"]} == {p.data_ptr() for p in m.parameters() if p.requires_grad}
""", "a supported layer of which only some parameters are trainable, and no explicit parameters",
"the frozen parameter of a partly frozen layer is selected for training")
bug("ddp-sequence-mean-sum", "C23", [
 (O, '''            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)''', '''            op = dist.ReduceOp.AVG if loss_average == "batch" else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)''')], PRE + """
import torch.distributed as dist
ops = []
dist.is_initialized = lambda: True
def fake(t, op=None, group=None, async_op=False):
    ops.append(op)
dist.all_reduce = fake
m = nn.Linear(2, 2)
opt = SINGD(m, loss_average="batch+sequence")
m(torch.rand(3, 4, 2)).mean().backward()
opt.step()
assert all(op == dist.ReduceOp.AVG for op in ops) and ops, ops
""", "several processes and a loss that is a mean over batch and sequence",
"natural gradients are summed instead of averaged over processes")
bug("dtype-C-follows-K", "C24", [
 (O, "        dtype_C = dtype[1] if dtype[1] is not None else module.weight.dtype\n", "        dtype_C = dtype[1] if dtype[1] is not None else dtype_K\n")], PRE + """
m = nn.Linear(2, 2).bfloat16()
opt = SINGD(m, preconditioner_dtype=(torch.float32, None))
assert opt.Ks[""].to_dense().dtype == torch.float32
assert opt.Cs[""].to_dense().dtype == torch.bfloat16
""", "a data type given for K only, and parameters of another data type",
"the factor C gets the data type of K instead of the parameter's")
bug("accumulate-first-pass-only", "C16", [
 (O, '''        self.H_Ks[module_name] = (
            self.H_Ks[module_name].add_(H_K) if module_name in self.H_Ks else H_K
        )
''', '''        self.H_Ks.setdefault(module_name, H_K)
''')], PRE + """
m = nn.Linear(2, 2)
opt = SINGD(m)
x, y = torch.rand(3, 2), torch.rand(3, 2)
def col(*xs):
    opt.H_Ks.clear(), opt.H_Cs.clear()
    for z in xs:
        m(z).sum().backward()
    return opt.H_Ks[""].to_dense().clone()
assert torch.allclose(col(x, y), col(x) + col(y))
""", "two backward passes before a step", "the curvature of the inputs is that of the first pass only")
