#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json
import os

S = "singd/structures/"
O = "singd/optim/optimizer.py"
U = "singd/optim/utils.py"
STRUCT = [S + f for f in ("base.py", "dense.py", "diagonal.py", "blockdiagonal.py",
                          "hierarchical.py", "triltoeplitz.py", "triutoeplitz.py",
                          "recursive.py", "utils.py")]
ALLDIMS = ("every structured matrix class, every dimension (including 0, 1 and sizes "
           "around the block / border boundaries), all component values, symmetric or not")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))


prop("C01", "Multiplying a structured matrix onto a dense one is exact",
     "Multiplying any structured matrix, or its transpose, onto a conformable dense matrix gives exactly the product of "
     "the represented dense matrix (or its transpose) with that matrix. Rows are neither dropped, duplicated nor mixed, "
     "whatever the dimension, and non-symmetric component values are handled correctly.",
     ["inputs"], ALLDIMS + ", every positive number of columns",
     "The tests multiply matrices of dimension 1 and 10 obtained by projecting symmetric matrices; a block or border "
     "boundary error at another dimension, or a missing transpose for a non-symmetric matrix, never shows.",
     STRUCT,
     [("multiplication with a tensor", S + "*.py __matmul__"), ("transposed multiplication", S + "*.py rmatmat"),
      ("Toeplitz product", S + "utils.py toeplitz_matmul")],
     observe=["return value of the @ operator and of the transposed product"])
prop("C02", "Structured algebra is exact and closed in its class",
     "The product and the sum of two structured matrices of the same class, and the product of one with a scalar, are "
     "structured matrices of that class whose dense form is exactly the product, sum and scalar multiple of the dense forms. "
     "The operands are left as they were.",
     ["inputs"], ALLDIMS + ", every pair of operands of equal dimension, every scalar",
     "Closure under multiplication must hold for every dimension and every pair of factors; the tests draw symmetric "
     "samples of two sizes.",
     STRUCT,
     [("structured product", S + "*.py __matmul__"), ("sum", S + "*.py __add__"), ("scalar multiple", S + "*.py __mul__")],
     observe=["dense form and class of the result", "dense form of the operands afterwards"])
prop("C03", "In-place updates are exact and touch only their target",
     "Adding a multiple of another structured matrix in place, scaling in place and adding a value to the diagonal in place "
     "change the dense form of the target to exactly the stated value, return the target itself, and change no other matrix. "
     "This stays true for repeated in-place updates of one object, and when a matrix is added to itself.",
     ["inputs", "histories"], ALLDIMS + ", every scalar, sequences of in-place updates",
     "In-place updates go through shared storage: whether one leaks into another object depends on how each object was "
     "made, which the sampled tests do not vary.",
     STRUCT,
     [("in-place addition and scaling", S + "base.py add_, mul_"), ("diagonal shift", S + "*.py diag_add_, utils.py diag_add_")],
     state=[("components", "tensors that represent the matrix", S + "*.py named_tensors")],
     observe=["dense form of target and of every other live matrix"])
prop("C04", "Projecting a symmetric matrix onto a structure follows its definition",
     "Building a structured matrix from a dense symmetric matrix keeps the entries of the structure's support, where an "
     "off-diagonal entry whose mirror image lies outside the support is doubled and a Toeplitz diagonal holds the average over "
     "that diagonal. The dense form of given components has each component at its documented position and zeros elsewhere, and "
     "the input is left unchanged.",
     ["inputs"], "every class, every dimension, all symmetric matrices; all valid component tuples",
     "The tests project random matrices of two dimensions; border cases (fewer rows than a block, exactly one border) are "
     "not reached for most classes.",
     STRUCT, [("projection", S + "*.py from_dense"), ("densification", S + "*.py to_dense"),
              ("border position", S + "hierarchical.py _compute_block_dims; " + S + "recursive.py _get_boundary"),
              ("diagonal sums", S + "utils.py all_traces")],
     observe=["dense form", "components"])
prop("C05", "Structured Gram matrices equal the projected dense Gram matrices",
     "For a structured matrix K and a dense matrix X, the structured form of K^T X X^T K, of X X^T, of K^T K and of K^T S K for "
     "symmetric S is exactly the projection of that dense matrix onto the structure. This holds for every dimension and every "
     "positive number of columns, for non-symmetric K as well, and leaves K and X unchanged.",
     ["inputs"], "every structured matrix class, every dimension from 1 on, all component values, symmetric or not, "
     "every positive number of columns of X",
     "K stops being symmetric after the first optimizer updates, while the tests use symmetric K of dimension 1 and 10 only.",
     STRUCT, [("Gram matrix with inner factor", S + "*.py from_inner"), ("Gram matrix", S + "*.py from_mat_inner"),
              ("Gram matrix from covariance", S + "*.py from_inner2")],
     observe=["dense form of the result"])
prop("C06", "Traces and norms of structured matrices equal those of their dense form",
     "The average trace, the Frobenius norm and the largest absolute entry reported for a structured matrix equal those of its "
     "dense form, for every dimension for which they are defined. Empty components do not influence them.",
     ["inputs"], ALLDIMS.replace("including 0, 1", "from 1 on, including 1"), "Weights per component (Toeplitz multiplicities, border sizes) are exercised at two dimensions only.",
     STRUCT, [("average trace", S + "*.py average_trace"), ("Frobenius norm", S + "*.py frobenius_norm"),
              ("largest entry", S + "base.py infinity_vector_norm")],
     observe=["returned scalar"])
prop("C07", "Zero and identity matrices are correct, typed, and independent",
     "For every dimension, the zero and identity constructors give a structured matrix whose dense form is the zero or identity "
     "matrix, in the requested data type and on the requested device. Two matrices made this way never share memory and their "
     "components can be updated in place.",
     ["inputs", "configurations"], "every class, every dimension >= 1, every floating data type, every device",
     "The tests use two dimensions on one device and do not update the results in place.",
     STRUCT, [("zeros", S + "*.py zeros"), ("eye", S + "*.py eye, utils.py supported_eye")],
     observe=["dense form, data type and device of all components"])
prop("C08", "Structured operations keep data type and device",
     "With all operands of one supported data type on one device, every structured operation succeeds and returns a result of that "
     "data type on that device. No component of a result silently has another precision or lives elsewhere.",
     ["inputs", "configurations"], "every class, operation, supported data type, device and dimension",
     "The tests run on the CPU only and compare values, not the data type or device of every component.",
     STRUCT, [("explicit compute and output types", S + "*.py"), ("lowest common precision", S + "utils.py lowest_precision")],
     observe=["data type and device of results and their components"])
prop("C09", "Out-of-place structured operations never alias or modify operands",
     "The result of a product, sum, scalar multiple or Gram-matrix extraction shares no memory with the operands: updating the "
     "result in place afterwards leaves the operands unchanged, and the operation itself modifies none of its arguments. "
     "Updating an operand afterwards leaves the result unchanged.",
     ["inputs", "histories"], ALLDIMS + ", any later in-place update",
     "Aliasing shows only in a later in-place update of one of two objects; the tests check each value once.",
     STRUCT, [("fresh component tensors", S + "*.py")], observe=["dense form of all live matrices after in-place updates"])
prop("C10", "All-reducing a structured matrix reduces every component in place",
     "After all-reducing a structured matrix across processes, its dense form is the requested reduction of the dense forms on all "
     "processes, whatever the memory layout of its components. Each component is reduced exactly once, with the operation and group "
     "that were passed, and an asynchronous call returns one handle per reduction.",
     ["inputs", "configurations"], "every class, dimension, memory layout of the components, operation, group, sync / async",
     "The only distributed test needs two GPUs and a download; nothing exercises the method offline.",
     [S + "base.py", S + "recursive.py"], [("collective per component", S + "base.py all_reduce"),
                                           ("enumeration of components", S + "base.py, recursive.py named_tensors")],
     observe=["component values after the collective", "calls made to the collective"])
prop("C11", "Structured matrices reject malformed components",
     "Constructing a structured matrix from components whose shapes do not fit together or exceed the class's limits is rejected "
     "with a value error. Every consistent tuple of components, including ones with empty parts, is accepted.",
     ["inputs"], "block-diagonal, hierarchical and recursive classes; all component shapes",
     "Invalid shapes are outside what the tests sample.",
     [S + "blockdiagonal.py", S + "hierarchical.py", S + "recursive.py", S + "base.py"],
     [("shape checks", "__init__ of the classes")], observe=["exception or success"])
prop("C12", "Layer inputs are turned into the documented KFAC factor",
     "For linear layers with any number of weight-sharing dimensions and for 2d convolutions with any kernel size, stride, padding, "
     "dilation and groups, the processed input has one row per sample (reduce) or per sample and shared position (expand), holding "
     "the (averaged) unfolded input and a trailing one for a bias, divided by the square root of the number of rows. The result has the data type and device of the tensor it was computed from. The layer's "
     "input itself is never modified.",
     ["inputs", "configurations"], "all shapes, layer hyper-parameters, both approximations, with and without bias",
     "Tests cover a handful of small layers, mostly through complete training runs that need a download.",
     [U], [("input processing", U + " process_input, linear_process_input, conv2d_process_input"),
           ("patch extraction", U + " _extract_patches, _extract_averaged_patches")], observe=["returned matrix", "input tensor afterwards"])
prop("C13", "Output gradients are turned into the documented KFAC factor",
     "The processed output gradient has one row per sample and shared position (expand) or the per-sample sum over shared positions "
     "(reduce), multiplied by the square root of the number of averaged loss terms, that is 1 for a summed loss, the batch size for "
     "a batch mean, and batch size times shared positions for a mean over both. The result has the data type and device of the tensor it was computed from. The gradient passed in is never modified.",
     ["inputs", "configurations"], "all shapes, both layer types, all loss averages, both approximations",
     "Loss averages and shared dimensions combine freely; tests check few combinations.",
     [U], [("gradient processing", U + " process_grad_output, linear_process_grad_output, conv2d_process_grad_output")],
     observe=["returned matrix", "gradient tensor afterwards"])
prop("C14", "The pre-conditioner follows the documented inverse-free update",
     "On an update step the momenta of both factors become alpha1 times their old value plus the documented natural-gradient direction "
     "built from the accumulated curvature, the damping and the identity, and each factor K becomes K minus the (scheduled, optionally "
     "normalised) rate times K times its momentum; the KFAC-like variant drops the cross-factor traces. Only the layer's own factors "
     "and momenta change.",
     ["inputs", "configurations", "histories"], "all layer sizes, hyper-parameters, factor and momentum values, steps, both variants",
     "Values of hyper-parameters and previous state are free; the tests that compare against a reference need a download and fix a few settings.",
     [O], [("pre-conditioner update", O + " _update_preconditioner"), ("schedule of the rate", O + " lr_cov callable")],
     state=[("K, C, m_K, m_C, H_K, H_C", "factors, momenta, accumulated curvature per layer", O)],
     observe=["factors and momenta after a step"])
prop("C15", "Curvature is collected and applied exactly every T steps",
     "At steps divisible by a layer's update period, each forward/backward pass with gradients enabled contributes that layer's curvature "
     "once and the following step consumes and clears it; at all other steps nothing is collected and the factors stay unchanged. "
     "Forward passes without gradients never contribute.",
     ["histories", "schedules", "configurations"], "every step count, every period, every group, any interleaving of training and evaluation passes",
     "Periods are per group and counted over long histories; the tests take a few steps with one period.",
     [O], [("hook on the output", O + " _register_tensor_hook_on_output_to_accumulate_H_terms"), ("period test in the update", O + " _update_preconditioner"),
           ("flush", O + " _update_preconditioner pops the accumulators")],
     observe=["collected curvature and factors per step"])
prop("C16", "Collected curvature is the projected Gram matrix, summed over passes",
     "A backward pass adds to a layer's collected curvature exactly the structured Gram matrices of the processed input and output gradient "
     "under the current factors. Several backward passes before a step add up, and other layers' collected curvature is untouched.",
     ["inputs", "histories", "configurations"], "all inputs, gradients, factor values, any number of passes",
     "Sums over several passes and arbitrary factor values are not sampled by the tests that run.",
     [O], [("accumulation", O + " _accumulate_H_terms")], observe=["collected curvature after backward passes"])
prop("C17", "Loss scaling does not change the training trajectory",
     "If the loss of every step is multiplied by that step's positive scale and the optimizer is told the scales, the parameters, momenta and "
     "factors after every step are those of the unscaled run, whatever the sequence of scales. A step whose gradients contain infinities "
     "changes no parameter, momentum or factor, drops the curvature it collected, and still counts as a step.",
     ["histories", "inputs", "configurations"], "every sequence of positive scales and skipped steps, every period, both update variants",
     "It is a statement over whole histories of scales; the scaler test needs a download and a fixed scaler.",
     [O], [("un-scaling in hook, update and natural gradient", O), ("book-keeping of two scales", O + " set_current_grad_scale, _remove_used_grad_scales"),
           ("skipping", O + " step")],
     state=[("gradient scales", "scale per step", O + " _grad_scales")],
     observe=["parameters and factors after each step"])
prop("C18", "The natural gradient is the gradient multiplied by both factors",
     "The update direction of a layer is C C^T G K K^T where G is its un-scaled gradient matrix with the bias gradient as last column, split "
     "back and reshaped to the weight and the bias. Each factor is applied in its own precision, the direction is in the parameter's, "
     "and the gradient itself is left unchanged.",
     ["inputs", "configurations"], "all layer sizes and types, with and without bias, all factor values and structures",
     "Factor values that are neither identity nor symmetric occur only after several updates.",
     [O], [("natural gradient", O + " _compute_natural_gradient")], observe=["parameter change of a step"])
prop("C19", "Parameters follow the documented step with their own group's settings",
     "A step adds weight decay times the parameter to the natural gradient, folds that into the momentum buffer (momentum times old plus new), and "
     "subtracts the learning rate times the result, each hyper-parameter being the current value of the group that contains the parameter. "
     "Changes of a group's hyper-parameters take effect at the next step.",
     ["inputs", "configurations", "histories"], "all hyper-parameter values including zero, all groupings, changes between steps",
     "Group test needs a download; hyper-parameter values are continuous.",
     [O], [("parameter update", O + " _step"), ("group lookup", O + " _get_param_group_entry")], observe=["parameters and momentum buffers after a step"])
prop("C20", "Only registered parameters and the optimizer's own state change",
     "A step, a forward pass or a backward pass with the optimizer installed changes no parameter that was not handed to the optimizer, no gradient, no "
     "input or output of a layer and no buffer of the model. What the network computes is the same as without the optimizer.",
     ["inputs", "configurations", "histories"], "all models, parameter selections and passes",
     "Frame conditions quantify over everything that must not change; the tests look at what must change.",
     [O, U], [("selection of layers", O + " _install_hooks"), ("copies in hooks", O + " _accumulate_H_terms")],
     observe=["all tensors of the model and its passes"])
prop("C21", "Saving and restoring the optimizer resumes the same trajectory",
     "Restoring a saved optimizer state into a fresh optimizer for an equal model makes all following steps identical to those of the original, whichever step it "
     "was saved at. Restoring leaves the saved state usable for another restore.",
     ["histories", "crash_points"], "every step at which the state is saved, every configuration, any number of restores",
     "The checkpoint test needs a download and saves at fixed steps.",
     [O], [("state export", O + " state_dict"), ("state import", O + " load_state_dict"), ("list of state", O + " STATE_ATTRIBUTES")],
     observe=["trajectory after restoring"])
prop("C22", "Invalid configurations are rejected, defaults select what can be trained",
     "Negative default rates, unsupported loss averages or approximations in any group, parallel wrappers and layers whose parameters sit in different groups are rejected "
     "with an error when the optimizer is made, and a closure when it steps. Without explicit parameters exactly the trainable parameters of supported layers are "
     "selected, with a warning for each other layer that has trainable parameters unless it is turned off.",
     ["configurations", "inputs"], "all configurations, groupings and models",
     "Combinations of groups and models are unbounded; three tests fix one model each.",
     [O], [("validation", O + " __init__, _check_param_groups"), ("selection", O + " _get_trainable_parameters")], observe=["exceptions, warnings, parameter groups"])
prop("C23", "Distributed training equals single-process training on the joint batch",
     "With the batch split evenly over any number of processes, the collected curvature and the update direction on every process equal those of one process that sees "
     "the whole batch, for summed and averaged losses. Without an initialised process group nothing is communicated.",
     ["configurations", "inputs", "histories"], "any number of processes, all layer types, loss averages and approximations",
     "The distributed test needs two GPUs and a download.",
     [O], [("reduction of curvature", O + " _accumulate_H_terms"), ("reduction of the natural gradient", O + " _compute_natural_gradient")],
     observe=["collected curvature and parameters on each process"])
prop("C24", "A fresh optimizer starts from identity factors of the layer's size",
     "For every supported layer with a registered parameter, both factors start as identity matrices of the requested structure, data type and the layer's device, sized "
     "by the layer's flattened input (plus one with a bias) and output dimension, with zero momenta when momentum is used and nothing collected. Applying "
     "these fresh factors leaves a gradient unchanged.",
     ["inputs", "configurations"], "all layer sizes, structures, data types and devices",
     "Layer sizes and structures combine freely.",
     [O], [("initialisation", O + " _initialize_buffers, preconditioner_dims")], observe=["factors of a fresh optimizer"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
