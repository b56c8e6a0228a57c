#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=[f[1:] if f[0] == "/" else "larq_compute_engine/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

# ----------------------------------------------------------------- runtime kernels
prop("K01", "Bitpacking stores exactly the sign bits and unpacking restores them",
 "Packing a matrix of float, 8-bit, 32-bit or boolean values writes, for every row, one bit per value (1 exactly when the value is below the zero point; for booleans, 1 exactly for false), least significant bit first in 32-bit words, and leaves the unused bits of the last word of each row at 0. Unpacking that matrix gives back +1 (or the caller's zero-bit value) for every 0 bit and -1 (or the one-bit value) for every 1 bit. Neither direction writes outside its output or depends on anything but its input.",
 ["inputs"], "all row and column counts (multiples of 32 or not), all element types, all bit patterns incl. -0.0, infinities and NaN, all zero points inside and outside the type's range",
 "bitpack_test.cc samples a few random sizes of float/int8 only and only on one zero point at a time; it is not part of the stable tests here.",
 ["core/bitpacking/bitpack.h", "core/bitpacking/utils.h", "core/types.h"],
 [("row/word loop and 32-way fast path", "core/bitpacking/bitpack.h"), ("packed size", "core/bitpacking/utils.h")],
 ["bitpack_matrix / unpack_matrix / bitpack_array output buffers"])

prop("K02", "LceQuantize and LceDequantize convert any tensor to and from packed signs",
 "Running the LceQuantize operator on a float32, int8 (with any zero point) or bool tensor of any rank yields an int32 tensor whose last dimension is the original one divided by 32 rounded up and whose bits are the signs of the elements relative to the zero point; LceDequantize yields +1/-1 (float32), the saturated quantised images of +1/-1 (int8, for the output's scale and zero point), or true/false (bool). Quantising what LceDequantize produced gives the same packed tensor again. Tensors of unsupported types are refused when tensors are allocated rather than misread.",
 ["inputs", "configurations"], "ranks 1..5, all shapes incl. channel counts not a multiple of 32, element types, quantisation parameters, values",
 "quantization_test.cc covers one rank and a handful of sizes; every shape/type/parameter combination is out of its reach.",
 ["tflite/kernels/quantization.cc", "tflite/kernels/utils.h", "core/bitpacking/bitpack.h"],
 [("Prepare shape computation", "tflite/kernels/quantization.cc"), ("zero point handling in Eval", "tflite/kernels/quantization.cc")],
 ["operator output tensor"])

prop("K03", "Binary convolution with float output equals the mathematical definition",
 "For every supported filter size, stride, dilation, padding (VALID, SAME padded with +1, SAME padded with 0), group count, channel count, batch size and fused activation, the LceBconv2d operator with float32 output returns clamp(sum of products of the +/-1 inputs and +/-1 weights) * multiplier + bias for each output element, with the output shape of an ordinary TensorFlow convolution. This holds for the reference, the default optimised and the indirect-GEMM implementation alike.",
 ["inputs", "configurations"], "all shapes, strides, dilations, groups, paddings, activations, weights, multipliers and biases accepted by the operator, in each implementation",
 "bconv2d_test.cc is parameterised over a fixed grid, needs bazel and TFLite (not runnable here) and compares the implementations mostly with each other.",
 ["tflite/kernels/bconv2d.cc", "core/bconv2d/reference.h", "core/bconv2d/optimized_bgemm.h", "core/bconv2d/optimized_indirect_bgemm.h", "core/bconv2d/output_transform.h", "core/bconv2d/zero_padding_correction.h", "core/bgemm/bgemm.h", "core/indirect_bgemm/kernel.h"],
 [("output transform", "core/bconv2d/output_transform.h"), ("im2col + BGEMM", "core/bconv2d/optimized_bgemm.h"), ("indirection buffer", "core/indirect_bgemm/kernel.h"), ("zero padding correction", "core/bconv2d/zero_padding_correction.h")],
 ["operator output tensor"])

prop("K04", "Binary convolution with int8 output equals the quantised definition",
 "With an int8 output tensor the LceBconv2d operator returns, for each element, the real-valued result clamp(sum)*multiplier+bias divided by the output scale, plus the zero point, rounded to nearest and saturated to [-128,127] (up to one unit where the real value lies within float rounding of a tie). All implementations return the same bytes.",
 ["inputs", "configurations"], "all geometries of K03 with all output scales and zero points",
 "The existing tests draw few scales and zero points and never look at saturation on both sides.",
 ["tflite/kernels/bconv2d.cc", "core/bconv2d/output_transform.h", "core/types.h"],
 [("folding scale/zero point into multiplier and bias", "tflite/kernels/bconv2d.cc"), ("round/saturate", "core/types.h")],
 ["operator output tensor"])

prop("K05", "Binary convolution with packed output writes the threshold comparison",
 "With packed output the LceBconv2d operator sets the bit of output channel c exactly when the number of positions at which input and weight signs differ exceeds that channel's threshold, packs channels least significant bit first, and leaves padding bits of the last word at 0; a zero-padded position, which only the reference implementation supports here, counts as half a difference. All implementations write identical words, for every channel count and group count.",
 ["inputs", "configurations"], "all geometries of K03 with arbitrary thresholds incl. the extreme int32 values",
 "Tests only exercise thresholds produced by random multipliers on a fixed grid of shapes.",
 ["tflite/kernels/bconv2d.cc", "core/bconv2d/output_transform.h", "core/indirect_bgemm/kernel_4x2_portable.h", "core/bconv2d/reference.h"],
 [("threshold transform", "core/bconv2d/output_transform.h"), ("bitpacked writes", "core/indirect_bgemm/kernel_4x2_portable.h")],
 ["operator output tensor"])

prop("K06", "Results do not depend on implementation, thread count or memory contents",
 "For one model and one input, the reference, default optimised and indirect implementations of binary convolution produce bit-identical outputs for any number of threads and any partition of the work, except that with zero padding and float output the reference implementation may differ from the other two by float rounding. Repeated invocations give the same bytes whatever the scratch, temporary and output buffers and the memory behind the tensors contained before.",
 ["inputs", "configurations", "schedules"], "all K03-K05 configurations, thread counts 1..8, arbitrary prior buffer contents",
 "Tests run with at most a couple of thread counts and freshly zeroed arenas.",
 ["core/bconv2d/optimized_bgemm.h", "core/bgemm/bgemm.h", "core/bgemm/ruy_pack.h", "core/indirect_bgemm/kernel.h", "core/bconv2d/reference.h"],
 [("thread partition", "core/indirect_bgemm/kernel.h"), ("ruy context", "core/bgemm/bgemm.h")],
 ["operator output tensors of the three registrations"])

prop("K07", "Unsupported convolution configurations are refused, never executed wrongly",
 "When the attributes, tensor types, ranks or shapes given to LceBconv2d are not supported (a missing attribute, a pad value other than 0 or 1, a wrong number of inputs, wrong tensor types or ranks, zero padding in an implementation that cannot honour it, a filter depth or group size that does not divide into whole words, groups in the default optimised implementation, threshold, multiplier or bias vectors of the wrong length, int8 output without quantisation parameters, a dynamic input to the indirect implementation), preparing the operator reports an error. When preparation succeeds, invoking the operator succeeds and computes the definition of K03-K05.",
 ["inputs", "configurations"], "all combinations of option values, tensor types and shapes, valid and invalid",
 "Only four invalid combinations are death-tested upstream.",
 ["tflite/kernels/bconv2d.cc"],
 [("Init option parsing", "tflite/kernels/bconv2d.cc"), ("Prepare validation", "tflite/kernels/bconv2d.cc")],
 ["TfLiteStatus of Prepare/Eval"])

prop("K08", "Operators stay correct over any history of resizes, re-preparation and runs",
 "Any sequence of input resizes, re-allocations (with tensors moving in memory), input and parameter changes between allocations, thread-count changes and invocations of the LCE operators yields at each invocation exactly what a freshly created operator would compute from the current shapes and contents. No invocation touches memory of an earlier allocation.",
 ["histories"], "all finite sequences of resize / allocate / set input / set threads / invoke on all four operators",
 "Upstream tests build an interpreter, allocate once and invoke once.",
 ["tflite/kernels/bconv2d.cc", "tflite/kernels/bmaxpool.cc", "tflite/kernels/quantization.cc", "core/indirect_bgemm/kernel.h"],
 [("cached per-op data and when it is recomputed", "tflite/kernels/bconv2d.cc")],
 ["operator outputs after each step"],
 [("op data", "packed padding correction, indirection buffer, transformed multipliers cached across invocations", "tflite/kernels/bconv2d.cc")])

prop("K09", "Binary max pooling equals max pooling of the signs",
 "LceBMaxPool2d on a packed tensor equals ordinary 2D max pooling (same filter, stride, padding and output shape, windows clipped at the border) applied to the unpacked +/-1 tensor and packed again, for every batch, shape and channel count.",
 ["inputs", "configurations"], "all shapes, filter sizes, strides, paddings, contents",
 "bmaxpool_test.cc uses a fixed grid of small shapes, compares against TFLite's max pool and cannot be run here.",
 ["core/bmaxpool.h", "tflite/kernels/bmaxpool.cc"],
 [("window clipping", "core/bmaxpool.h"), ("output shape", "tflite/kernels/bmaxpool.cc")],
 ["operator output tensor"])

prop("K10", "Operators never write outside their outputs or read past the documented slack",
 "Every operator writes only inside its output (and the temporaries it requested), never changes its inputs or constants, and reads at most the documented 16 extra bytes past the end of a tensor. This holds for every accepted shape and configuration, including tiny ones and channel counts that are not a multiple of the vector block sizes, and its outcome never depends on what those extra bytes hold.",
 ["inputs", "configurations"], "all accepted configurations of the four operators; arbitrary contents of surrounding memory",
 "Out-of-bounds effects are silent in the existing tests, which use generously padded arenas.",
 ["core/bconv2d/optimized_indirect_bgemm.h", "core/indirect_bgemm/kernel_4x2_portable.h", "core/bgemm/kernels.h", "core/bgemm/ruy_pack.h", "core/bitpacking/bitpack.h", "tflite/kernels/bconv2d.cc"],
 [("padding of packed weights and loop bounds", "core/indirect_bgemm/kernel.h")],
 ["AddressSanitizer red zones and canaries around every tensor"])

prop("K11", "The binary GEMM multiplies packed matrices exactly, for any shape",
 "The binary matrix multiplication returns, for every row and column and any output type, the transformation of the exact number of differing bits between the row and the column, for all matrix sizes, block shapes, cache sizes and thread counts; packing the operands neither drops nor duplicates words.",
 ["inputs", "configurations"], "all (rows, depth, columns), all contents, thread counts 1..8",
 "No upstream test calls the GEMM directly.",
 ["core/bgemm/bgemm.h", "core/bgemm/kernels.h", "core/bgemm/kernels_common.h", "core/bgemm/ruy_pack.h", "core/bgemm/ruy_trmul_params.h"],
 [("packing", "core/bgemm/ruy_pack.h"), ("kernel clamping and store", "core/bgemm/kernels.h")],
 ["BGemm output matrix"])

prop("K12", "Registration gives every LCE operator the implementation that was asked for",
 "Registering the LCE operators makes LceQuantize, LceDequantize, LceBconv2d and LceBMaxPool2d available under exactly those names, with the reference binary convolution when it is requested, otherwise the indirect one when that is requested, otherwise the default optimised one; converted models that name these operators therefore always find a matching kernel.",
 ["configurations"], "all flag combinations, several resolvers, repeated registration",
 "No test checks which kernel is registered.",
 ["tflite/kernels/lce_ops_register.h", "tflite/kernels/bconv2d.cc"],
 [("registration", "tflite/kernels/lce_ops_register.h")],
 ["names and registrations received by the resolver"])

prop("K13", "The hand-written AArch64 kernels compute what the portable kernels compute",
 "On AArch64, every assembly kernel (packing of signs, binary GEMM micro-kernels, and the indirect GEMM kernels for all three output types) produces exactly the values of the portable implementation (8-bit results up to the direction in which ties are rounded) for every shape it can be selected for, also where 16 bits cannot count the products of an output value, in every history of resizes, re-allocations and invocations; it writes nothing outside its outputs, reads nothing outside its operands but the documented slack (LCE_EXTRA_BYTES) behind a tensor, and preserves the registers that its caller relies on.",
 ["inputs", "configurations"], "all depths, row/column remainders and contents reachable through kernel selection",
 "The stable tests run on x86 and never execute the assembly; upstream needs qemu or a device.",
 ["core/bitpacking/bitpack_aarch64.h", "core/bgemm/kernels_aarch64.h", "core/indirect_bgemm/kernel_8x4x1_aarch64.h", "core/indirect_bgemm/kernel_8x4x2_aarch64.h", "core/indirect_bgemm/kernel_8x4x4_aarch64.h", "core/indirect_bgemm/select_kernel.h"],
 [("inline assembly", "core/bgemm/kernels_aarch64.h")],
 ["memory written by the kernels"])

prop("K15", "On 32-bit Arm the operators compute what they compute elsewhere",
 "Built for 32-bit Arm with NEON, in Arm or Thumb instructions, every LCE operator, with its hand-written kernel and conversions (binary GEMM micro-kernel, rounding, saturation), produces exactly the values of the portable implementation (8-bit results up to the direction in which ties are rounded) for every shape, in every history of resizes, re-allocations and invocations; it writes nothing outside its outputs, reads nothing outside its operands but the documented slack (LCE_EXTRA_BYTES) behind a tensor, makes no access that its alignment forbids, and preserves the registers that its caller relies on.",
 ["inputs", "configurations"], "all depths, row/column remainders, outputs values around rounding and saturation boundaries",
 "The stable tests run on x86 and never execute these paths; upstream needs qemu or a device.",
 ["core/bgemm/kernels_arm32.h", "core/bgemm/kernels.h", "core/types.h", "core/bconv2d/output_transform.h", "tflite/kernels/bconv2d.cc"],
 [("inline assembly", "core/bgemm/kernels_arm32.h")],
 ["memory written by the kernels"])

prop("K16", "Interpreters on different threads do not disturb each other",
 "Several interpreters of any models, including interpreters that share one model's constants, may be created, allocated and invoked at the same time on different threads, and an interpreter may move to another thread between two calls: no operator shares mutable state with another operator instance or with a thread, not even on first use in the process, and none writes to the constants it is given; every output is what the interpreter produces alone, and the threads of one binary convolution never touch the same memory without ordering.",
 ["schedules", "inputs"], "2..4 threads, phases of creation, allocation and invocation in any combination, models that share constants, interpreters that move between threads, several worker threads per multiplication",
 "Every test runs one interpreter on one thread; a data race shows only under a particular interleaving.",
 ["tflite/kernels/bconv2d.cc", "tflite/kernels/bmaxpool.cc", "tflite/kernels/quantization.cc", "core/bconv2d/zero_padding_correction.h", "core/indirect_bgemm/kernel.h", "core/bgemm/bgemm.h"],
 [("operator state", "tflite/kernels/bconv2d.cc"), ("registrations", "tflite/kernels/lce_ops_register.h")],
 ["memory shared between operator instances"])

prop("K17", "Operators release what they take",
 "The memory an operator takes, in its initialisation, its preparation and its invocations, is released when the interpreter is destroyed, whether the operator ran, was resized any number of times or was refused at any point; and taking a network again through resizes, refusals and invocations it has been through before does not make its operators hold more memory.",
 ["inputs", "histories"], "networks of one to three operators, up to four shapes each, refused and accepted, any geometry, output type and implementation; all single-operator cases of K02..K09",
 "A leak changes no output; it takes an error path or a long history of resizes to matter.",
 ["tflite/kernels/bconv2d.cc", "tflite/kernels/bmaxpool.cc", "tflite/kernels/quantization.cc", "core/indirect_bgemm/kernel.h"],
 [("operator lifetime", "tflite/kernels/bconv2d.cc")],
 ["memory owned by an operator"])

prop("K14", "The benchmark program and Java binding run the operators asked for",
 "For any command line, the benchmark program runs the model once with the LCE operators whose binary convolution is the reference one when use_reference_bconv is set, otherwise the indirect one when use_indirect_bgemm is set, otherwise the default; all flags of TensorFlow Lite's tool keep working; it exits with success exactly when flags and run are fine. The Java binding's resolver has TensorFlow Lite's operators and the default LCE operators.",
 ["configurations"], "all command lines: flags absent, true, false or malformed, in any order, and runs that fail",
 "Neither has a test.",
 ["tflite/benchmark/lce_benchmark_main.cc", "tflite/benchmark/lce_benchmark_tflite_model.cc", "tflite/java/lce_ops_jni.cc", "tflite/kernels/lce_ops_register.h"],
 [("flags handed to the registration", "tflite/benchmark/lce_benchmark_tflite_model.cc")],
 ["resolver at the time of the run; exit code"])

# ----------------------------------------------------------------- converter passes
prop("M01", "Fixing the batch size changes only dynamic leading dimensions of arguments",
 "After the batch-size pass every function argument of ranked tensor type whose leading dimension was dynamic has leading dimension 1, in both the function signature and the entry block; every other argument, dimension, element type, result, operation and attribute is unchanged, and a second run changes nothing.",
 ["programs", "inputs"], "all functions and argument lists: any number of arguments, ranks 0 and up, static/dynamic dimensions in any position, non-tensor and unranked arguments, any element type, several functions per module, bodies with and without uses",
 "set_batch_size.mlir has a handful of fixed functions.",
 ["mlir/transforms/set_batch_size.cc"],
 [("argument loop", "mlir/transforms/set_batch_size.cc")],
 ["printed module before/after"])

prop("M02", "Sign-function recognition preserves the function computed",
 "Wherever the converter replaces a TensorFlow select-between-plus-and-minus-one (either order, either select operator, with broadcasting) or the legacy sign formulation by a pair of LCE quantise/dequantise operations, the replaced values are equal element for element for every input; selections between other constants are left alone.",
 ["programs", "inputs"], "all shapes and broadcasts of condition and branches, all constant values, all uses of the intermediate results",
 "prepare-tf.mlir pins the output text of a few fixed graphs.",
 ["mlir/transforms/prepare_patterns_common.td", "mlir/transforms/prepare_tf.cc", "mlir/transforms/common.h", "mlir/ir/lce_ops.cc"],
 [("rewrite patterns", "mlir/transforms/prepare_patterns_common.td")],
 ["values of the rewritten graph under an interpreter"])

prop("M03", "Convolutions become binary only when that preserves the function computed",
 "A TensorFlow convolution on dequantised signs is replaced by a binary convolution only if its filter is one common magnitude per output channel up to sign (within half a percent, by design), its strides, dilations, padding (explicit, VALID or SAME) and groups can be expressed exactly, and the target supports it (zero padding only on ARM); the replacement computes the same values up to float rounding (and that half percent). All other convolutions are left as they are.",
 ["programs", "inputs"], "all filters (binary, scaled, nearly binary, non-binary, zero), geometries, explicit paddings and pad values, layouts, targets",
 "prepare-tf.mlir pins a dozen graphs and does not evaluate any of them.",
 ["mlir/transforms/prepare_tf.cc", "mlir/transforms/prepare_patterns_common.td", "mlir/transforms/prepare_patterns_target_arm.td", "mlir/transforms/padding.h"],
 [("filter and padding predicates", "mlir/transforms/prepare_tf.cc")],
 ["values of the rewritten graph under an interpreter"])

prop("M04", "Fusing arithmetic and activations into binary convolutions is exact",
 "Fusing additions, subtractions, multiplications, divisions by constants and activations into a binary convolution leaves the values of every result of the function unchanged up to float rounding, and leaves a model the runtime accepts. Intermediate results that have other users keep their values.",
 ["programs", "inputs"], "all chains of these operations in any order on any binary convolution, constants of any broadcastable shape and any value, any additional uses",
 "optimize.mlir pins the text of fixed two- or three-operation graphs.",
 ["mlir/transforms/optimize_patterns_common.td", "mlir/transforms/optimize.cc"],
 [("rewrite patterns and one-use constraints", "mlir/transforms/optimize_patterns_common.td")],
 ["values of the rewritten graph under an interpreter"])

prop("M05", "Writing packed activations directly gives the same signs",
 "Whenever quantising the output of a binary convolution is replaced by a binary convolution with packed output, the thresholds and (re-signed) weights make it produce exactly the sign bits of the original float output, for every input and every multiplier, bias and fused activation (positive, negative or zero multipliers, sign-constant channels), except where the float output is within rounding of zero.",
 ["programs", "inputs"], "all filters, multipliers, biases, activations, paddings, strides, dilations, groups; all inputs",
 "optimize.mlir checks the thresholds of a few hand-chosen channels, by text.",
 ["mlir/transforms/optimize.cc", "mlir/transforms/bitpack_activations_patterns.td"],
 [("threshold computation", "mlir/transforms/optimize.cc"), ("weight sign flip", "mlir/transforms/bitpack_activations_patterns.td")],
 ["packed output of the rewritten operator compared with signs of the original"])

prop("M06", "Comparison and pooling rewrites in front of quantisation preserve the signs",
 "Replacing quantisation of a comparison with a constant or tensor (greater-or-equal, less-or-equal) by quantisation of the operand or of a difference, and on ARM replacing quantisation of a max pool by a binary max pool of the quantised input, never changes a packed bit (for operands that are not NaN); intermediate values with other users and targets without binary pooling keep the original operations.",
 ["programs", "inputs"], "all operand shapes with broadcasting, all thresholds, pool geometries and fused activations, both targets",
 "optimize.mlir pins the text of single graphs.",
 ["mlir/transforms/optimize_patterns_common.td", "mlir/transforms/optimize_patterns_target_arm.td"],
 [("rewrite patterns", "mlir/transforms/optimize_patterns_common.td")],
 ["packed values of the rewritten graph under an interpreter"])

prop("M07", "Packed weights and folded constants equal what the runtime would compute",
 "Packing convolution weights at conversion time and constant-folding LCE quantise and dequantise operations produces exactly the tensors the runtime operators produce from the same constants, with correct shapes, for constants of every rank; constants that cannot be folded (of other element types, held outside the module, or with a quantised result) are left in place rather than misread, and the values of the function stay what they were.",
 ["programs", "inputs"], "all constant shapes and ranks, channel counts, element types, quantisation parameters and values",
 "bitpack-weights.mlir and const-fold.mlir each check one or two constants.",
 ["mlir/transforms/bitpack.cc", "mlir/transforms/bitpack_weights.cc", "mlir/transforms/bitpack_weights_patterns.td", "mlir/ir/lce_ops.cc"],
 [("Bitpack / Unpack", "mlir/transforms/bitpack.cc"), ("fold hooks", "mlir/ir/lce_ops.cc")],
 ["constants in the module after the pass, compared with the runtime kernels"])

prop("M08", "Operators survive serialisation: the runtime reads back what was converted",
 "Every LCE operation written as a custom operator carries a name and an options buffer from which the runtime kernel and the reverse translation recover exactly the same attribute values, operands, results and locations; operations and custom operators that are not LCE's are left untouched.",
 ["programs", "inputs"], "all attribute values the runtime knows of all four operations, any operand and result types",
 "lce_ops_options_test.cc and legalize-lce.mlir check one set of values per operation.",
 ["mlir/ir/lce_ops.cc", "mlir/ir/lce_ops.td", "mlir/transforms/legalize_tflite.cc", "mlir/transforms/translate_tflite.cc", "tflite/kernels/bconv2d.cc", "tflite/kernels/bmaxpool.cc"],
 [("buildCustomOption", "mlir/ir/lce_ops.cc"), ("Init parsing", "tflite/kernels/bconv2d.cc"), ("reverse translation", "mlir/transforms/translate_tflite.cc")],
 ["options decoded by the kernels; operations after the reverse pass"])

prop("M09", "Fusing explicit padding into convolutions is exact",
 "An explicit zero padding is folded into a following (depthwise) convolution only when the SAME padding of that convolution is exactly the removed padding, so that the function computed is unchanged for every input, including strides and dilations greater than one; otherwise padding and convolution are left as they are.",
 ["programs", "inputs"], "all paddings, pad values, input and filter sizes, strides, dilations, ranks; further uses of the padded tensor",
 "fuse_padding.mlir uses 64x64 inputs, 3x3 filters and stride 1 only.",
 ["mlir/transforms/fuse_padding.td", "mlir/transforms/fuse_padding.cc", "mlir/transforms/padding.h"],
 [("same-padding predicate", "mlir/transforms/padding.h")],
 ["values of the rewritten graph under an interpreter"])

prop("M10", "Removing pass-through operations changes no value",
 "The pass that removes pass-through TensorFlow operations (identity, identity-n, snapshot, stop-gradient, check-numerics, placeholder-with-default) and turns static constants into plain constants leaves every function result connected to the same value as before and removes nothing else.",
 ["programs"], "all graphs of these operations, any nesting, operand counts and uses; constants of any type and shape",
 "op-removal.mlir has one function per operation.",
 ["mlir/transforms/op_removal_patterns.td", "mlir/transforms/op_removal.cc"],
 [("rewrite patterns", "mlir/transforms/op_removal_patterns.td")],
 ["values of the rewritten graph under an interpreter"])

prop("M11", "Absorbing quantise/dequantise pairs keeps values and quantised types",
 "When integer quantisation is requested, removing dequantise/quantise pairs around binary convolutions and around LCE quantise/dequantise leaves each result with the quantised type it had and with the value the original graph computes from the unquantised convolution parameters, up to one quantisation step and exactly for packed results, using nothing the runtime refuses; parameters of binary convolutions stay float, values used elsewhere are kept and no LCE operation is duplicated.",
 ["programs", "inputs"], "all graphs of quantise/dequantise pairs around LCE operations, all scales and zero points, any extra uses",
 "quantize.mlir pins the text of four graphs.",
 ["mlir/transforms/quantize_patterns.td", "mlir/transforms/quantize.cc"],
 [("rewrite patterns", "mlir/transforms/quantize_patterns.td")],
 ["values of the rewritten graph under an interpreter"])

prop("M12", "Quantised detection post-processing absorbs dequantisation without loss",
 "A detection post-processing custom operator whose three inputs all come from dequantisations consumes the quantised values directly, its scores output becomes a quantised tensor with the parameters of the class-score input followed by a dequantisation, and all other results, uses, options and attributes stay as they were; every other custom operator, and one with any unquantised input or other result types, is left untouched.",
 ["programs", "inputs"], "all shapes, scales, zero points and quantised element types, sources (constant or not), further users, other custom operators, partially quantised inputs",
 "detection_postprocess.mlir has one graph.",
 ["mlir/transforms/detection_postprocess.cc"],
 [("rewrite pattern", "mlir/transforms/detection_postprocess.cc")],
 ["module after the pass"])

prop("M13", "The whole conversion pipeline preserves the model and leaves no LCE dialect op",
 "Running the LCE conversion pipeline for either target on any float model built from signs, binary convolutions, batch-normalisation arithmetic, activations, poolings and paddings yields a model containing only standard operators and LCE custom operators that the target has, in which every convolution of a recognisable sign with binary weights (and a supported padding) is a binary convolution with bitpacked constant weights, and whose execution with the runtime kernels gives the same outputs as the original model up to float rounding (and sign decisions within rounding of zero), whatever combination and order of layers is used.",
 ["programs", "inputs", "configurations"], "random multi-layer models with shared intermediate values, both targets; all inputs",
 "end2end_test.py needs a full bazel build and converts a few fixed models.",
 ["mlir/tf_tfl_passes.cc", "mlir/transforms/prepare_tf.cc", "mlir/transforms/optimize.cc", "mlir/transforms/bitpack_weights.cc", "mlir/transforms/legalize_tflite.cc", "mlir/ir/lce_ops.cc", "tflite/kernels/bconv2d.cc"],
 [("pass order", "mlir/tf_tfl_passes.cc")],
 ["outputs of the original and the converted model"])

prop("M15", "Conversion depends on the model and the options only",
 "What the conversion makes of a function is a function of that function, the target and the options: converting it again, in the same process or another context, next to other functions of the module, in another order, or with the passes running on several functions at the same time on different threads, gives the identical result; no function is lost, duplicated or moved.",
 ["inputs", "schedules", "histories"], "1..4 functions of any kind, up to 12 copies of each, alone, together, permuted, on several threads, after any history of other conversions, with objects at addresses in any order",
 "Every test converts one function once, on one thread, and looks for fragments of the result.",
 ["mlir/tf_tfl_passes.cc", "mlir/transforms/prepare_tf.cc", "mlir/transforms/optimize.cc", "mlir/transforms/bitpack_weights.cc", "mlir/transforms/quantize.cc", "mlir/transforms/op_removal.cc", "mlir/transforms/fuse_padding.cc"],
 [("pipeline", "mlir/tf_tfl_passes.cc")],
 ["state that passes keep between functions or runs"])

prop("M14", "The native converter applies every option, and no failed step yields a model",
 "The native conversion functions import exactly the graph (arrays, types, shapes with an empty shape meaning unknown) or SavedModel (directory, tags, names, version) given, convert it for the requested target, with integer quantisation and default ranges exactly when requested, freeze variables only when there is a SavedModel, and return exactly the bytes exported, with custom operators allowed, the SavedModel's tags and operator names of at most 50 characters. An unknown target, a missing exported name, an entry function that is missing, ambiguous or without named inputs, V1 control flow anywhere, and the failure of any step, with or without a diagnostic, raises an exception; bytes are never returned then.",
 ["configurations", "faults"], "all option values of both functions, all modules (functions, entry functions, nested operators, names), a failure of any importer, pass, freezing or export step or of the final verification",
 "No test runs these functions here; upstream converts a few valid models.",
 ["mlir/python/common.cc", "mlir/python/graphdef_tfl_flatbuffer.cc", "mlir/python/saved_model_tfl_flatbuffer.cc", "mlir/python/pybind_export.cc", "mlir/tf_to_tfl_flatbuffer.cc", "mlir/tf_tfl_passes.cc"],
 [("option handling", "mlir/python/common.cc"), ("steps and their failures", "mlir/tf_to_tfl_flatbuffer.cc")],
 ["calls received by importers, passes and exporter; bytes or exception"])

# ----------------------------------------------------------------- python API
prop("Y01", "The converter hands the model and every option over unchanged or refuses",
 "The Python conversion functions pass the target, quantisation types, default ranges and model to the native converter exactly as requested, replace an unspecified batch dimension by 1, and return the converted bytes, of a quantised conversion with the requested integer input and output types; an invalid target, an invalid inference type, a mixed-precision model or the wrong kind of model raises an error before anything is converted. Integer types of a SavedModel conversion that did not quantise are refused; a Keras model that was not quantised keeps its float types. When a Keras model cannot be converted through a SavedModel the same conversion is made from its graph, with an unspecified non-batch dimension refused.",
 ["inputs", "configurations"], "all combinations of option values, valid and invalid; models with any number of inputs and outputs and any static or dynamic dimensions",
 "converter_test.py mocks one model per API with default options.",
 ["mlir/python/converter.py"],
 [("validation and call assembly", "mlir/python/converter.py")],
 ["arguments received by the native converter; exception or bytes"])

prop("Y02", "Changing the integer input/output type preserves the model's function",
 "Rewriting a quantised model's inputs or outputs to int8 (float keeps the model as it is) yields a structurally valid model in which every input that enters through a Quantize operator, and every output that leaves through a Dequantize operator, is replaced by its int8 counterpart, all others stay, and whose outputs equal those of the original model for corresponding inputs, in the same order and under the same signature names, for any number of inputs and outputs, shared or repeated tensors, and subgraphs; tensors that are still read elsewhere are kept, and a model in which a float input is also used otherwise, or with another input or output type, is refused.",
 ["programs", "inputs"], "all models with quantise/dequantise operators at their borders, any order of operators, shared inputs, repeated outputs, unused tensors, several operator-code entries",
 "There is no unit test except a single end-to-end model.",
 ["mlir/python/util.py"],
 [("tensor/operator rewiring", "mlir/python/util.py")],
 ["rewritten flatbuffer executed by TensorFlow Lite"])

prop("Y03", "Stripping trailing LceDequantize keeps everything before it",
 "Stripping the final Dequantize and LceDequantize operators of a model yields a structurally valid model whose corresponding outputs are the tensors that fed them, with all other outputs, operators, inputs and signatures unchanged and results that are still read elsewhere kept; a model with neither operator to strip is refused.",
 ["programs"], "all models with LceDequantize at none, some or all outputs, shared packed tensors, several outputs, other custom operators",
 "strip_lcedequantize_test.py uses one model and is not runnable here.",
 ["mlir/python/util.py"],
 [("output rewiring and operator removal", "mlir/python/util.py")],
 ["rewritten flatbuffer"])

prop("Y04", "Batched prediction equals running every sample on its own, in order",
 "Interpreter prediction over an array, a list of arrays, or a generator of samples returns, for each output, the concatenation in input order of the results of running each sample alone; single-output models return an array and multi-output models a list; nothing is lost, duplicated or shared between samples.",
 ["inputs", "histories"], "any number of inputs, outputs, samples, dtypes and shapes, arrays vs. generators, repeated calls",
 "interpreter_test.py needs the native module and uses one model.",
 ["tflite/python/interpreter_base.py", "tflite/python/interpreter.py"],
 [("data_generator and predict", "tflite/python/interpreter_base.py")],
 ["returned arrays; calls made to the native interpreter"])

prop("Y05", "The native interpreter binding copies exactly or refuses",
 "The native interpreter binding accepts an input list only if count, element type, rank, dimensions and byte size of every array match the model's inputs (otherwise it raises and leaves no partial memory corruption), runs the model once, and returns each output with the model's type, shape and values as an independent copy; reported types, shapes, scales and zero points are those of the model.",
 ["inputs", "histories"], "any models' tensor lists, any arrays (wrong dtype, rank, shape, non-contiguous, byte-swapped), any call sequence",
 "Only exercised through one small model upstream.",
 ["tflite/python/interpreter_wrapper_utils.h"],
 [("input validation", "tflite/python/interpreter_wrapper_utils.h")],
 ["Python-visible results and exceptions"])

# ----------------------------------------------------------------- configuration
prop("C01", "Configuring a build writes exactly the settings chosen, or refuses",
 "The configuration script takes every setting from the environment, else from the answer given, else from the announced default, asks again after an answer that does not name an interpreter, NDK, SDK, platform or tools version that exists (giving up after ten), and asks nothing that the environment settles. The file it leaves holds exactly the options for those settings, and nothing of a file left by an earlier run; an unusable environment variable, an interpreter older than Python 3 or an incomplete NDK or SDK makes it fail instead of writing a complete-looking configuration.",
 ["configurations", "histories"], "all environments, sequences of answers (including none), platforms and layouts of NDK, SDK and interpreters on disk",
 "No test runs the configuration script.",
 ["/configure.py"],
 [("precedence of environment, answer and default", "get_from_env_or_user_or_default in configure.py"), ("asking again", "prompt_loop_or_load_from_env in configure.py")],
 ["the written .lce_configure.bazelrc, the questions asked, the exit"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
