From bf56ec796b2b36201b8266be9189d3f57671e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 01/25] fix: zero-padding correction when the filter sticks out
 at opposite sides

ApplyCorrection skipped output pixels for which the filter overlaps two
opposite image borders, or exactly touches the far border, leaving the
contribution of the one-padding in the output.
---
 .../core/bconv2d/zero_padding_correction.h    | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..3468b62 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -18,6 +18,8 @@
 #ifndef COMPUTE_ENGINE_CORE_BCONV2D_ZERO_PADDING_CORRECTION_H_
 #define COMPUTE_ENGINE_CORE_BCONV2D_ZERO_PADDING_CORRECTION_H_
 
+#include <algorithm>
+
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/core/types.h"
 #include "tensorflow/lite/kernels/op_macros.h"
@@ -259,7 +261,34 @@ void ApplyCorrection(const int input_batches, const int input_height,
           cache_X = (overflow_right >= 0 ? overflow_right : 0);
           cache_Y = overflow_bot;
         } else {
-          // This cannot happen.
+          // The kernel sticks out at opposite sides of the image (or exactly
+          // touches the far side), so none of the four cases describes it. The
+          // corrections of the four corners add up to twice the correction of
+          // the edges minus that of the corners, so subtracting the correction
+          // of every edge once leaves every value that sticks out exactly once.
+          const int top = std::max(overflow_top, 0);
+          const int bot = std::max(overflow_bot, 0);
+          const int left = std::max(overflow_left, 0);
+          const int right = std::max(overflow_right, 0);
+          const auto cached = [&](const int direction, const int x,
+                                  const int y) {
+            return padding_cache +
+                   ((direction * effective_filter_height + y) *
+                        effective_filter_width +
+                    x) *
+                       filter_count;
+          };
+          float* out_ptr =
+              output_data +
+              ((batch * output_height + out_y) * output_width + out_x) *
+                  filter_count;
+          for (int out_c = 0; out_c < filter_count; ++out_c) {
+            out_ptr[out_c] +=
+                cached(0, left, top)[out_c] + cached(1, right, top)[out_c] +
+                cached(2, left, bot)[out_c] + cached(3, right, bot)[out_c] -
+                cached(0, 0, top)[out_c] - cached(2, 0, bot)[out_c] -
+                cached(0, left, 0)[out_c] - cached(1, right, 0)[out_c];
+          }
           continue;
         }
 
-- 
2.43.0


From c305c28f1e6f7703fce0a6fc0a366c80ce1e5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 02/25] fix: do not read the absent multiplier for zero-padded
 bitpacked output

The reference kernel supports 'same-zero' padding with bitpacked output, but
OneTimeSetup dereferenced the post-activation multiplier, which such a node
does not have, to fill a padding cache that only float output uses.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..7b9c028 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -334,9 +334,10 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
+  // For 'same-zero' padding, compute the padding-correction. It applies to float
+  // output only; the post-activation multiplier is absent with bitpacked output.
   if (bconv2d_params->padding_type == kTfLitePaddingSame &&
-      bconv2d_params->pad_value == 0) {
+      bconv2d_params->pad_value == 0 && output->type == kTfLiteFloat32) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
         bconv2d_params->channels_out, bconv2d_params->dilation_height_factor,
-- 
2.43.0


From e11b49adf08cbe29ebba68d877a6adc4b677c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 03/25] fix: rebuild the indirect BGEMM kernel after Prepare

The kernel object holds the image dimensions and a pointer to the output
transform buffers; after an input resize it was kept, so Eval used the old
dimensions and freed memory.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 7b9c028..0a2c0c1 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -295,6 +295,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // Prepare could be called multiple times; when the input tensor is resized,
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
+  op_data->indirect_bgemm_kernel.reset();
 
   return kTfLiteOk;
 }
-- 
2.43.0


From e3b7c1de1c5605741a09213575b1cfdd9e80879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 04/25] fix: avoid signed overflow in the bitpacking padding
 mask

With 31 trailing columns the mask was computed as INT_MAX + 1.
---
 larq_compute_engine/core/bitpacking/bitpack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/bitpacking/bitpack.h b/larq_compute_engine/core/bitpacking/bitpack.h
index acdaa1d..f5a9014 100644
--- a/larq_compute_engine/core/bitpacking/bitpack.h
+++ b/larq_compute_engine/core/bitpacking/bitpack.h
@@ -276,7 +276,7 @@ inline void bitpack_matrix(const TIn* input, const std::size_t input_num_rows,
       // except the final element, which will have a prefix of ones with a
       // suffix of zeroes.
       const TBitpacked value_with_padding =
-          (1 << (input_num_cols % bitpacking_bitwidth)) - 1;
+          (1u << (input_num_cols % bitpacking_bitwidth)) - 1;
       int rows = input_num_rows;
       while (rows--) {
         std::fill(output, output + output_num_cols - 1, ~TBitpacked(0));
-- 
2.43.0


From 44e69459d679d2ced594a938d7b2b0fe71a0f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 05/25] fix: update every signature and the intermediates of
 the subgraph that loses tensors

---
 larq_compute_engine/mlir/python/util.py | 26 +++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..0b73333 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -54,6 +54,15 @@ def _convert_model_from_object_to_bytearray(model_object):
     return bytes(builder.Output())
 
 
+def _get_signature_defs(model, subgraph):
+    """Returns the SignatureDefs that refer to the tensors of this subgraph."""
+    return [
+        signature_def
+        for signature_def in model.signatureDefs or []
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph
+    ]
+
+
 def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
     """Update the tensors in the SignatureDef's TensorMaps."""
     for i in range(len(tensor_maps)):
@@ -96,8 +105,9 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+            if op.intermediates is not None:
+                update_tensors(op.intermediates)
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -194,8 +204,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -207,8 +216,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -296,8 +304,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -353,8 +360,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From 0963a35d481c894f3a521031191e2027b83748b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 06/25] fix: keep, or refuse to remove, float inputs and
 outputs that are used elsewhere

---
 larq_compute_engine/mlir/python/util.py | 39 +++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 0b73333..0b1e66d 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,15 @@ def _get_signature_defs(model, subgraph):
     ]
 
 
+def _count_readers(subgraph, tensor_idx):
+    """Counts the operators that have this tensor as input."""
+    return sum(
+        1
+        for op in subgraph.operators
+        if op.inputs is not None and tensor_idx in op.inputs
+    )
+
+
 def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
     """Update the tensors in the SignatureDef's TensorMaps."""
     for i in range(len(tensor_maps)):
@@ -201,6 +210,18 @@ def modify_integer_quantized_model_io_type(
 
     # Modify model input type
     if inference_input_type == tf.int8:
+        # Ensure the float inputs are not used by anything else
+        for op in input_quant_ops:
+            if (
+                _count_readers(subgraph, op.inputs[0]) > 1
+                or op.inputs[0] in subgraph.outputs
+            ):
+                raise ValueError(
+                    "Model input with name '{}' can not be changed to tf.int8 because "
+                    "its float values are used as well.".format(
+                        subgraph.tensors[op.inputs[0]].name
+                    )
+                )
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
@@ -220,8 +241,10 @@ def modify_integer_quantized_model_io_type(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its float output is used within the model
+            if _count_readers(subgraph, op.outputs[0]) == 0:
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -308,8 +331,10 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its float output is used within the model
+            if _count_readers(subgraph, op.outputs[0]) == 0:
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
         # Remove tensors marked for deletion.
         _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -364,8 +389,10 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-        remove_tensors_idxs.add(op.outputs[0])
-        operators.remove(op)
+        # Keep the operator if its float output is used within the model
+        if _count_readers(subgraph, op.outputs[0]) == 0:
+            remove_tensors_idxs.add(op.outputs[0])
+            operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
-- 
2.43.0


From 370735f14293b6b811bd76285ab12dbb6b0a2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 07/25] fix: recognise quantize and dequantize operators of
 every version

---
 larq_compute_engine/mlir/python/util.py | 32 ++++++++++++-------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 0b1e66d..b974202 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -131,15 +131,14 @@ def _find_int8_quantized_inputs_outputs(model):
     operators = main_subgraph.operators
 
     # Ensure model has atleast one quantize and dequantize operator
-    quant_opcode_idx, dequant_opcode_idx = None, None
+    # (there is one operator code for every version of an operator)
+    quant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.builtinCode == tflite_schema.BuiltinOperator.QUANTIZE:
-            quant_opcode_idx = idx
+            quant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if quant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if quant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not quant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model is not integer quantized as it does not "
             "contain quantize/dequantize operators."
@@ -149,7 +148,7 @@ def _find_int8_quantized_inputs_outputs(model):
     input_quant_ops, output_dequant_ops = [], []
     for op in operators:
         # Find input quantize operator
-        if op.opcodeIndex == quant_opcode_idx and op.inputs[0] in main_subgraph.inputs:
+        if op.opcodeIndex in quant_opcode_idxs and op.inputs[0] in main_subgraph.inputs:
             pos, float_tensor, int_tensor = (
                 "input",
                 tensors[op.inputs[0]],
@@ -158,7 +157,7 @@ def _find_int8_quantized_inputs_outputs(model):
             input_quant_ops.append(op)
         # Find output dequantize operator
         elif (
-            op.opcodeIndex == dequant_opcode_idx
+            op.opcodeIndex in dequant_opcode_idxs
             and op.outputs[0] in main_subgraph.outputs
         ):
             pos, float_tensor, int_tensor = (
@@ -270,21 +269,20 @@ def _strip_lcedequantize_ops_subgraph(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT
 ) -> None:
     # Ensure model has at least one LceDequantize and/or Dequantize operator
-    lce_dequant_opcode_idx, dequant_opcode_idx = None, None
+    # (there is one operator code for every version of an operator)
+    lce_dequant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.customCode == b"LceDequantize":
-            lce_dequant_opcode_idx = idx
+            lce_dequant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if lce_dequant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if lce_dequant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not lce_dequant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model does not contain any LceDequantize or Dequantize operators."
         )
 
     # Ensure model outputs are dequantized and remove Dequantize ops first if any
-    if dequant_opcode_idx is not None:
+    if dequant_opcode_idxs:
         tensors = subgraph.tensors
         operators = subgraph.operators
         remove_tensors_idxs = set()
@@ -293,7 +291,7 @@ def _strip_lcedequantize_ops_subgraph(
         for op in operators:
             # Find output Dequantize operator
             if (
-                op.opcodeIndex == dequant_opcode_idx
+                op.opcodeIndex in dequant_opcode_idxs
                 and op.outputs[0] in subgraph.outputs
             ):
                 pos, float_tensor, int_tensor = (
@@ -348,7 +346,7 @@ def _strip_lcedequantize_ops_subgraph(
     for op in operators:
         # Find output LceDequantize operator
         if (
-            op.opcodeIndex == lce_dequant_opcode_idx
+            op.opcodeIndex in lce_dequant_opcode_idxs
             and op.outputs[0] in subgraph.outputs
         ):
             pos, output_tensor, input_tensor = (
-- 
2.43.0


From 0acc6fecdd79021054220d361d119e5e49efcd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 08/25] fix: raise when an input can not be converted to an
 array

---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..8ea9b55 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,9 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    if (!nparray) {
+      PY_ERROR("Input " << i << " can not be converted to a numpy array.");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From 162eed41836109198d0d6f12c95d0b1dd6b7973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 09/25] fix: read constants as floats or 32-bit integers only
 when they are

---
 larq_compute_engine/mlir/transforms/common.h                 | 5 +++--
 larq_compute_engine/mlir/transforms/fuse_padding.td          | 1 +
 larq_compute_engine/mlir/transforms/padding.h                | 2 ++
 .../mlir/transforms/prepare_patterns_common.td               | 1 +
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index d192d9c..7b7391f 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -7,9 +7,10 @@ namespace mlir {
 namespace TFL {
 
 inline bool IsConstantValue(Attribute values, float expected_value) {
-  if (!values.isa<DenseElementsAttr>()) return false;
+  auto elements = values.dyn_cast<DenseElementsAttr>();
+  if (!elements || !elements.getElementType().isF32()) return false;
 
-  for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
+  for (auto value : elements.getValues<float>()) {
     if (value != expected_value) return false;
   }
   return true;
diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.td b/larq_compute_engine/mlir/transforms/fuse_padding.td
index 57d7be0..5ee3f1a 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.td
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.td
@@ -8,6 +8,7 @@ def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 class ConstFloatValueIs<string val>
     : Constraint<CPred<
           "$0.isa<DenseElementsAttr>() && "
+          "$0.cast<DenseElementsAttr>().getElementType().isF32() && "
           "$0.cast<DenseElementsAttr>().getNumElements() == 1 && "
           "*$0.cast<DenseElementsAttr>().getValues<float>().begin() == " #val>>;
 
diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 69a8c75..0f5fad4 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -17,6 +17,8 @@ inline DenseElementsAttr GetValidPadAttr(Attribute paddings_attr) {
   if (pad_type.getRank() != 2) return nullptr;
   auto pad_shape = pad_type.getShape();
   if (pad_shape[0] != 4 || pad_shape[1] != 2) return nullptr;
+  // `tf.Pad` and `tf.PadV2` also accept 64-bit paddings
+  if (!pad_type.getElementType().isInteger(32)) return nullptr;
   return paddings;
 }
 
diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..c8283af 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -128,6 +128,7 @@ def : PrepareBConvPadValue0Pat<TFL_PAD_Valid>;
 
 def ConstFloatValueIsOne : Constraint<
   CPred<"$0.isa<DenseElementsAttr>() && "
+  "$0.cast<DenseElementsAttr>().getElementType().isF32() && "
   "$0.cast<DenseElementsAttr>().getNumElements() == 1 && "
   "*$0.cast<DenseElementsAttr>().getValues<float>().begin() == 1.0f">>;
 
-- 
2.43.0


From 22fa7d0b7921921fe8040bf6cd91fa3cb777e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 10/25] fix: recognise only selects and shifted signs that are
 the sign function

---
 .../transforms/prepare_patterns_common.td     | 17 +++++++-----
 .../mlir/transforms/prepare_tf.cc             | 26 +++++++++++++++++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index c8283af..a9376c7 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -22,6 +22,8 @@ def CreateTFBroadcastToOp : NativeCodeCall<
 def CreateTFShapeOp : NativeCodeCall<
     "$_builder.create<TF::ShapeOp>($0.getLoc(), $1, $2)">;
 
+def BroadcastsCondition : Constraint<CPred<"BroadcastsCondition($0, $1)">>;
+
 // Base quantiser patterns that match the `tf.where` implementation of `ste_sign`.
 multiclass QuantDequantPatterns<Op SelectOp> {
   def : Pat<(SelectOp:$select_op
@@ -37,7 +39,7 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            [(BroadcastsCondition $cond, $select_op)]>;
   def : Pat<(SelectOp:$select_op
                 $cond,
                 (Arith_ConstantOp ConstantValue<"-1.0f">),
@@ -51,17 +53,20 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            [(BroadcastsCondition $cond, $select_op)]>;
 }
 foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
 // based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
+def LegacySign : Constraint<CPred<"IsLegacySign($0, $1, $2)">>;
+def : Pat<(TF_SignOp:$sign_op (TF_AddV2Op (TF_SignOp $arg), $c)),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(LegacySign $arg, $c, $sign_op)]>;
+def : Pat<(TF_SignOp:$sign_op (TF_AddV2Op $c, (TF_SignOp $arg))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(LegacySign $arg, $c, $sign_op)]>;
 
 // Copied from legalize_patterns.td
 class I32VectorElementsAttr<int len> : ElementsAttrBase<
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 111fc6b..eecbbe6 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -38,6 +38,32 @@ struct PrepareLCE
                        clEnumValN(LCETarget::XCORE, "xcore", "XCORE target"))};
 };
 
+// Returns whether a select between two scalars is the (numpy-style) broadcast of
+// its condition to the static shape of its output.
+bool BroadcastsCondition(Value condition, Value output) {
+  auto condition_type = condition.getType().dyn_cast<RankedTensorType>();
+  auto output_type = output.getType().dyn_cast<RankedTensorType>();
+  if (!condition_type || !output_type) return false;
+  if (!output_type.hasStaticShape() || output_type.getRank() == 0) return false;
+  // With a vector as condition `tf.Select` selects along the first dimension.
+  if (llvm::isa<TF::SelectOp>(output.getDefiningOp()))
+    return condition_type.getRank() == 0 ||
+           condition_type.getShape() == output_type.getShape();
+  return true;
+}
+
+// Returns whether `sign(sign(arg) + addend)` is `arg >= 0 ? 1 : -1`.
+bool IsLegacySign(Value arg, Value addend, Value output) {
+  auto type = arg.getType().dyn_cast<RankedTensorType>();
+  if (!type || type != output.getType() || type.getRank() == 0) return false;
+  if (type.isDynamicDim(type.getRank() - 1)) return false;
+  DenseElementsAttr values;
+  if (!matchPattern(addend, m_Constant(&values))) return false;
+  if (!values.getElementType().isF32()) return false;
+  return llvm::all_of(values.getValues<float>(),
+                      [](float value) { return value > 0.0f && value < 1.0f; });
+}
+
 DenseElementsAttr GetConstantVector(TypedAttr filter, float val) {
   auto filter_type = filter.getType().cast<ShapedType>();
   auto filter_shape = filter_type.getShape();
-- 
2.43.0


From 2b80df4fbd1c74012945f888f1852ded57acd312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 11/25] fix: filters with NaNs are not binary

---
 larq_compute_engine/mlir/transforms/prepare_tf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index eecbbe6..18be2ac 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -107,7 +107,9 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
           if (std::abs(scale) <= std::numeric_limits<float>::epsilon())
             return false;
           auto value = filter.getValues<float>()[{h, w, i, o}];
-          if (std::abs(std::abs(value / scale) - 1.0f) > 0.005f) return false;
+          // Written such that it rejects NaNs
+          if (!(std::abs(std::abs(value / scale) - 1.0f) <= 0.005f))
+            return false;
         }
       }
     }
-- 
2.43.0


From 7ea1a7e52b825c1cf34e9e1b43e6edb9f34218ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 12/25] fix: padding of dimensions of unknown size is not known
 to be SAME

---
 larq_compute_engine/mlir/transforms/padding.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 0f5fad4..859593e 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -33,8 +33,11 @@ inline ShapeRefType GetShape4D(Value tensor) {
 }
 
 inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
-                            int input_size, int output_size, int stride) {
+                            int64_t input_size, int64_t output_size,
+                            int stride) {
   using compute_engine::core::CeilDiv;
+  if (ShapedType::isDynamic(input_size) || ShapedType::isDynamic(output_size))
+    return false;
   int pad_before = paddings.getValues<int>()[{dimension, 0}];
   int pad_after = paddings.getValues<int>()[{dimension, 1}];
   const int pad_total = pad_before + pad_after;
-- 
2.43.0


From fdad3e85f8749ceb7d6ab95c2fe17a7ead99712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 13/25] fix: fuse only constants that are per channel into
 binary convolutions

---
 larq_compute_engine/mlir/transforms/optimize.cc    |  7 +++++++
 .../mlir/transforms/optimize_patterns_common.td    | 14 ++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..e796923 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -243,6 +243,13 @@ DenseElementsAttr GetBitpackedOutputThresholds(
   return DenseElementsAttr::get(type, thresholds);
 }
 
+// Returns whether a constant operand is one value per channel (or one for all),
+// such that it can be merged with the multiplier or bias of a convolution.
+bool IsPerChannel(Attribute value, Value conv_output, Value result) {
+  return value.cast<ElementsAttr>().getShapedType().getRank() <= 1 &&
+         conv_output.getType() == result.getType();
+}
+
 namespace optimize_target_arm {
 #include "larq_compute_engine/mlir/transforms/generated_optimize_target_arm.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 9bc11fa..19e9299 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -35,9 +35,10 @@ def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
 
-// TODO: Check shapes before fusing
+def IsPerChannel : Constraint<CPred<"IsPerChannel($0, $1, $2)">>;
+
 multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
-  def : Pat<(binaryOp
+  def : Pat<(binaryOp:$result
                 (LQ_Bconv2dOp:$output
                     $input,
                     $filter,
@@ -68,14 +69,14 @@ multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $output)]>;
+            [(HasOneUse $output),
+             (IsPerChannel $value, $output, $result)]>;
 }
 foreach binaryOp = [TFL_AddOp, TFL_SubOp] in
   defm : FuseAddOrSubWithBConv2D<binaryOp>;
 
-// TODO: Check shapes before fusing
 multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
-  def : Pat<(binaryOp
+  def : Pat<(binaryOp:$result
                 (LQ_Bconv2dOp:$conv_output
                     $input,
                     $filter,
@@ -107,7 +108,8 @@ multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $conv_output)]>;
+            [(HasOneUse $conv_output),
+             (IsPerChannel $value, $conv_output, $result)]>;
 }
 foreach binaryOp = [TFL_DivOp, TFL_MulOp] in
   defm : FuseMulOrDivWithBConv2D<binaryOp>;
-- 
2.43.0


From 38f91ac1e80b833e4f3fdfb7aaf7b1cda2f4a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 14/25] fix: fold comparisons into quantize only when types and
 shapes allow it

---
 larq_compute_engine/mlir/transforms/optimize.cc           | 7 +++++++
 .../mlir/transforms/optimize_patterns_common.td           | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index e796923..d1086df 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -243,6 +243,13 @@ DenseElementsAttr GetBitpackedOutputThresholds(
   return DenseElementsAttr::get(type, thresholds);
 }
 
+bool HasStaticShapeOf(Value value, Value other) {
+  auto type = value.getType().dyn_cast<RankedTensorType>();
+  auto other_type = other.getType().dyn_cast<RankedTensorType>();
+  return type && other_type && type.hasStaticShape() &&
+         type.getShape() == other_type.getShape();
+}
+
 // Returns whether a constant operand is one value per channel (or one for all),
 // such that it can be merged with the multiplier or bias of a convolution.
 bool IsPerChannel(Attribute value, Value conv_output, Value result) {
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 19e9299..7feb37c 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -13,13 +13,17 @@ def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
 class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self, " # val # ")">>;
 
+def IsF32 : Constraint<CPred<"getElementTypeOrSelf($0.getType()).isF32()">>;
+def HasStaticShapeOf : Constraint<CPred<"HasStaticShapeOf($0, $1)">>;
+
 // This pattern has priority (addBenefit) over the more generic pattern below
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
                   $input,
                   (Arith_ConstantOp ConstantValue<"0.0f">))),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $ge_op)], [], (addBenefit 100)>;
+          [(HasOneUse $ge_op),
+           (HasStaticShapeOf $input, $ge_op)], [], (addBenefit 100)>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
@@ -27,7 +31,7 @@ def : Pat<(LQ_QuantizeOp
                   $threshold)),
           (LQ_QuantizeOp
               (TFL_SubOp $input, $threshold, TFL_AF_None)),
-          [(HasOneUse $ge_op)]>;
+          [(HasOneUse $ge_op), (IsF32 $input)]>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_LessEqualOp:$ge_op $lhs, $rhs)),
-- 
2.43.0


From 070e6fd8289129eccff574af10b80f835281472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 15/25] fix: keep max poolings with a fused activation out of
 binary max poolings

---
 .../mlir/transforms/optimize_patterns_target_arm.td             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..e1f01af 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -9,7 +9,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From ec593f76396b45c73ed0887a13b78ef81f9cc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 16/25] fix: fold packing of constants of any rank and leave
 what cannot be folded

---
 .../mlir/transforms/bitpack.cc                | 73 ++++++++-----------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..365c318 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -5,34 +5,32 @@
 
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/core/types.h"
-#include "mlir/Dialect/Quant/QuantTypes.h"
 
 namespace mlir {
 namespace TFL {
 
 using compute_engine::core::bitpacking_bitwidth;
-using compute_engine::core::round;
-using compute_engine::core::saturate;
 using compute_engine::core::TBitpacked;
 using namespace compute_engine::core::bitpacking;
 
 DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   if (!x) return nullptr;
 
+  auto elements = x.dyn_cast<DenseElementsAttr>();
+  if (!elements || elements.getType().getRank() == 0) return nullptr;
+
   // ShapedType is something like tensor<1x2x3xf32> and element_type is f32
-  auto shaped_type = x.cast<TypedAttr>().getType().cast<ShapedType>();
-  auto shape = shaped_type.getShape();
-  auto element_type = shaped_type.getElementType();
+  auto shape = elements.getType().getShape();
+  auto element_type = elements.getType().getElementType();
 
-  int num_rows = shape[0] * shape[1] * shape[2];
-  int unpacked_channels = shape[3];
+  int num_rows = ShapedType::getNumElements(shape.drop_back());
+  int unpacked_channels = shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
 
   std::vector<TBitpacked> new_values(num_rows * packed_channels);
 
   if (element_type.isF32()) {
-    const auto& dense_elements_iter =
-        x.cast<DenseElementsAttr>().getValues<float>();
+    const auto& dense_elements_iter = elements.getValues<float>();
 
     std::vector<float> old_values(num_rows * unpacked_channels);
 
@@ -49,9 +47,10 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
     return nullptr;
   }
 
-  RankedTensorType out_tensor_type =
-      RankedTensorType::get({shape[0], shape[1], shape[2], packed_channels},
-                            builder->getIntegerType(bitpacking_bitwidth));
+  std::vector<std::int64_t> out_shape = shape.drop_back();
+  out_shape.push_back(packed_channels);
+  RankedTensorType out_tensor_type = RankedTensorType::get(
+      out_shape, builder->getIntegerType(bitpacking_bitwidth));
 
   return DenseElementsAttr::get<TBitpacked>(out_tensor_type, new_values);
 }
@@ -60,23 +59,29 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   if (!x) return nullptr;
   if (!result_type.hasStaticShape()) return nullptr;
 
-  auto input_shape =
-      x.cast<TypedAttr>().getType().cast<ShapedType>().getShape();
+  auto elements = x.dyn_cast<DenseElementsAttr>();
+  if (!elements || !elements.getElementType().isInteger(bitpacking_bitwidth))
+    return nullptr;
+
+  auto input_shape = elements.getType().getShape();
   auto output_shape = result_type.getShape();
   auto output_type = result_type.getElementType();
 
-  int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
-  int unpacked_channels = output_shape[3];
-  int packed_channels = GetBitpackedSize(unpacked_channels);
-  if (input_shape[0] != output_shape[0] || input_shape[1] != output_shape[1] ||
-      input_shape[2] != output_shape[2] || input_shape[3] != packed_channels) {
+  // constant-folding to anything but floats is currently not supported
+  if (!output_type.isF32()) return nullptr;
+
+  if (output_shape.empty() || input_shape.empty() ||
+      input_shape.drop_back() != output_shape.drop_back()) {
     return nullptr;
   }
+  int num_rows = ShapedType::getNumElements(output_shape.drop_back());
+  int unpacked_channels = output_shape.back();
+  int packed_channels = GetBitpackedSize(unpacked_channels);
+  if (input_shape.back() != packed_channels) return nullptr;
 
   std::vector<TBitpacked> old_values(num_rows * packed_channels);
 
-  const auto& dense_elements_iter =
-      x.cast<DenseElementsAttr>().getValues<TBitpacked>();
+  const auto& dense_elements_iter = elements.getValues<TBitpacked>();
 
   int i = 0;
   for (TBitpacked x : dense_elements_iter) {
@@ -84,28 +89,12 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   }
   assert(i == num_rows * packed_channels);
 
-  if (output_type.isF32()) {
-    std::vector<float> new_values(num_rows * unpacked_channels);
+  std::vector<float> new_values(num_rows * unpacked_channels);
 
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data());
+  unpack_matrix(old_values.data(), num_rows, unpacked_channels,
+                new_values.data());
 
-    return DenseElementsAttr::get<float>(result_type, new_values);
-  } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
-    const double scale = quant_type.getScale();
-    const int zero_point = quant_type.getZeroPoint();
-
-    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0 / scale));
-    std::int8_t one_bit_result = saturate(zero_point + round(-1.0 / scale));
-
-    std::vector<std::int8_t> new_values(num_rows * unpacked_channels);
-
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data(), zero_bit_result, one_bit_result);
-
-    return DenseElementsAttr::get<std::int8_t>(result_type, new_values);
-  }
+  return DenseElementsAttr::get<float>(result_type, new_values);
 }
 
 }  // namespace TFL
-- 
2.43.0


From a69e58a934dd1563502240ec9dae54a70be38da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 17/25] fix: fold padding into strided convolutions only when
 it is the same

---
 .../mlir/transforms/fuse_padding.cc           | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..9bcdf2a 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "larq_compute_engine/mlir/transforms/padding.h"
 #include "mlir/Pass/Pass.h"
 #include "mlir/Transforms/GreedyPatternRewriteDriver.h"
@@ -26,9 +28,30 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
 
-  // Check that there is no padding in the batch and channel dimensions
-  return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+  if (!IsSamePadding1D(paddings, dimension, input_shape[dimension],
+                       output_shape[dimension], stride)) {
+    return false;
+  }
+
+  // With strides larger than one the output size does not determine the
+  // padding, so check that it is what the convolution would add itself
+  Operation* conv_op = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv_op->getOperand(1));
+  auto dilation_attr = conv_op->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (filter_shape.empty() || ShapedType::isDynamic(filter_shape[dimension]) ||
+      !dilation_attr) {
+    return false;
+  }
+  const int64_t filter_size =
+      (filter_shape[dimension] - 1) * dilation_attr.getInt() + 1;
+  const int64_t same_padding = std::max<int64_t>(
+      (output_shape[dimension] - 1) * stride + filter_size -
+          input_shape[dimension],
+      0);
+  return paddings.getValues<int>()[{dimension, 0}] +
+             paddings.getValues<int>()[{dimension, 1}] ==
+         same_padding;
 }
 
 namespace fuse_padding {
-- 
2.43.0


From 5f0ed0915685fe98c2effe4760b7af86f206e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 18/25] fix: absorb quantisation only where the value is float
 and the result has 8 bits

---
 .../mlir/transforms/quantize_patterns.td      | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/quantize_patterns.td b/larq_compute_engine/mlir/transforms/quantize_patterns.td
index 553734f..261ccd0 100644
--- a/larq_compute_engine/mlir/transforms/quantize_patterns.td
+++ b/larq_compute_engine/mlir/transforms/quantize_patterns.td
@@ -2,14 +2,13 @@ include "mlir/IR/PatternBase.td"
 include "tensorflow/compiler/mlir/lite/ir/tfl_ops.td"
 include "larq_compute_engine/mlir/ir/lce_ops.td"
 
-
 def : Pat<(LQ_Bconv2dOp
               $input,
               $filter,
               (TFL_DequantizeOp
-                  (TFL_QuantizeOp $post_activation_multiplier, $qtype1)),
+                  (TFL_QuantizeOp F32Tensor:$post_activation_multiplier, $qtype1)),
               (TFL_DequantizeOp
-                  (TFL_QuantizeOp $post_activation_bias, $qtype2)),
+                  (TFL_QuantizeOp F32Tensor:$post_activation_bias, $qtype2)),
               $output_threshold,
               $channels_in,
               $dilation_height_factor,
@@ -36,7 +35,20 @@ def : Pat<(LQ_Bconv2dOp
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
-def : Pat<(TFL_QuantizeOp
+// Checks if the value is not quantized yet. Quantizing an already quantized
+// value once more clamps it to both of the ranges.
+def IsFloat : Constraint<CPred<
+    "$0.getType().cast<ShapedType>().getElementType().isF32()">>;
+
+// Checks if the value is quantized to 8 bits per tensor, which is the only
+// quantized type that the LCE kernels support.
+def IsQI8 : Constraint<CPred<
+    "quant::UniformQuantizedType::classof("
+    "    $0.getType().cast<ShapedType>().getElementType()) && "
+    "$0.getType().cast<ShapedType>().getElementType()"
+    "  .cast<quant::QuantizedType>().getStorageTypeIntegralWidth() == 8">>;
+
+def : Pat<(TFL_QuantizeOp:$quantized
             (LQ_Bconv2dOp:$output
               $input,
               $filter,
@@ -65,12 +77,12 @@ def : Pat<(TFL_QuantizeOp
               $padding,
               $stride_height,
               $stride_width),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsFloat $output), (IsQI8 $quantized)]>;
 
-def : Pat<(TFL_QuantizeOp (LQ_DequantizeOp:$output $input), $qtype),
+def : Pat<(TFL_QuantizeOp:$quantized (LQ_DequantizeOp:$output $input), $qtype),
           (LQ_DequantizeOp $input),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsFloat $output), (IsQI8 $quantized)]>;
 
 def : Pat<(LQ_QuantizeOp (TFL_DequantizeOp:$output $input)),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsQI8 $input)]>;
-- 
2.43.0


From ee8aea1f22f920dc634b2148c5403d1a1831009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 19/25] fix: keep types and attributes in quantised detection
 post-processing

---
 .../mlir/transforms/detection_postprocess.cc  | 49 ++++++++++---------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/detection_postprocess.cc b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
index 4dfe6cd..c5e4548 100644
--- a/larq_compute_engine/mlir/transforms/detection_postprocess.cc
+++ b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
@@ -77,6 +77,26 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
       });
     }
 
+    // Get the original inputs (before dequantization)
+    auto boxes_input = original_boxes_dequantize_op.getInput();
+    auto scores_input = original_scores_dequantize_op.getInput();
+    auto anchors_input = original_anchors_dequantize_op.getInput();
+
+    // Match that these inputs are quantized: dequantization also converts from
+    // other types, such as float16. The scores need a single scale.
+    auto get_data_type = [](Value value) {
+      return value.getType().cast<ShapedType>().getElementType();
+    };
+    auto scores_type =
+        llvm::dyn_cast<quant::UniformQuantizedType>(get_data_type(scores_input));
+    if (!scores_type ||
+        !llvm::isa<quant::QuantizedType>(get_data_type(boxes_input)) ||
+        !llvm::isa<quant::QuantizedType>(get_data_type(anchors_input))) {
+      return rewriter.notifyMatchFailure(detection_op, [&](Diagnostic& diag) {
+        diag << "expected quantized inputs before dequantization";
+      });
+    }
+
     // Verify the output types of the current detection op:
     // Output type #0: [int32] detection boxes (scaled by 2048)
     // Output type #1: [int32] detection class IDs
@@ -101,11 +121,6 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
 
     // ----------------- re-write part -----------------
 
-    // Get the original inputs (before dequantization)
-    auto boxes_input = original_boxes_dequantize_op.getInput();
-    auto scores_input = original_scores_dequantize_op.getInput();
-    auto anchors_input = original_anchors_dequantize_op.getInput();
-
     // Set the new detection inputs
     auto new_detection_inputs =
         SmallVector<Value, 3>{boxes_input, scores_input, anchors_input};
@@ -113,33 +128,23 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
     // Set the 4 outputs types [scores, classes, boxes, num_detections]:
     // Output type #0: [int32] detection boxes (scaled by 2048)
     // Output type #1: [int32] detection class IDs
-    // Output type #2: [int8 quantized] detection scores
+    // Output type #2: [quantized] detection scores
     // Output type #3: [int32] number of detections
-    // All as before, except for output #2 (float -> int8 quantized)
-    auto scores_type = scores_input.getType()
-                           .cast<ShapedType>()
-                           .getElementType()
-                           .cast<quant::UniformQuantizedType>();
-    const auto scores_zp = scores_type.getZeroPoint();
-    const auto scores_scale = scores_type.getScale();
-    output_data_types[2] = quant::UniformQuantizedType::get(
-        true, rewriter.getIntegerType(8), rewriter.getF32Type(), scores_scale,
-        scores_zp, -128, 127);
+    // All as before, except for output #2 (float -> quantized as the input)
+    output_data_types[2] = scores_type;
 
     // Set for all the outputs: data-type (as set above) and shape (as before)
     auto new_op_output_types = SmallVector<Type, 4>{};
     for (auto i = 0; i < 4; ++i) {
       auto value = original_detection_outputs[i];
-      auto shape = value.getType().cast<ShapedType>().getShape();
-      auto new_output_type = RankedTensorType::get(shape, output_data_types[i]);
-      new_op_output_types.push_back(new_output_type);
+      auto original_type = value.getType().cast<ShapedType>();
+      new_op_output_types.push_back(original_type.clone(output_data_types[i]));
     }
 
     // Add a new detection op (with int8 input and int8/int32 output)
     auto new_detection_op = rewriter.create<CustomOp>(
         detection_op->getLoc(), new_op_output_types, new_detection_inputs,
-        std::string{"TFLite_Detection_PostProcess"},
-        detection_op.getCustomOption());
+        detection_op->getAttrs());
 
     // Add the 4 outputs: boxes, classes, scores, num_detections
     auto new_outputs = SmallVector<Value, 4>{};
@@ -150,7 +155,7 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
     // Output #1: [int32] detection class IDs
     new_outputs.push_back(new_detection_op.getOutput()[1]);
 
-    // Output #2: [int8 quantized] detection scores
+    // Output #2: [quantized] detection scores
     auto new_dequantize_op = rewriter.create<DequantizeOp>(
         detection_op->getLoc(), original_detection_outputs[2].getType(),
         new_detection_op.getOutput()[2]);
-- 
2.43.0


From 9e524fc7c3f75ed9f64baffe68a2836c81452daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 20/25] fix: account for the eight values that the AArch64
 kernels read at once

---
 larq_compute_engine/core/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/types.h b/larq_compute_engine/core/types.h
index 24da7d4..ed23522 100644
--- a/larq_compute_engine/core/types.h
+++ b/larq_compute_engine/core/types.h
@@ -35,7 +35,7 @@ inline bool FastBoundsCheck(const int index, const int limit) {
 // In our kernels we may occasionally read (but never write) beyond the end of
 // an array. This is the maximum number of extra bytes that will be read, and
 // should be added as padding to the end of tensor allocations.
-#define LCE_EXTRA_BYTES 16
+#define LCE_EXTRA_BYTES 32
 
 // Define these once here, so they can be included everywhere.
 using TBitpacked = std::int32_t;
-- 
2.43.0


From 2d86974337516251271da09466a12804e1b54b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 21/25] fix: the 32-bit AArch64 kernel reads no deeper than its
 operands

---
 larq_compute_engine/core/bgemm/kernels_aarch64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/core/bgemm/kernels_aarch64.h b/larq_compute_engine/core/bgemm/kernels_aarch64.h
index f555a2b..2cc613c 100644
--- a/larq_compute_engine/core/bgemm/kernels_aarch64.h
+++ b/larq_compute_engine/core/bgemm/kernels_aarch64.h
@@ -234,9 +234,9 @@ void BinaryKernelNeon4x4(const BinaryKernelParams<DstScalar, 4, 4>& params) {
       LCE_BMLA(v24, v4, v0, v1, v2, v3)
 
 #if RUY_OPT(MAX_STREAMING)
-      "cmp w12, #8\n"
+      "cmp w12, #16\n"
       "blt 78f\n"
-      "and w2, w12, #-4\n"
+      "and w2, w12, #-8\n"
 
       // Load the next 64 bytes of LHS and RHS data.
       "ld1 {v8.4s, v9.4s, v10.4s, v11.4s}, [%[lhs_ptr]], #64\n"
-- 
2.43.0


From 940c04249f134ac9a7940e60d7d598e80bf8268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 22/25] fix: choose the 16-bit indirect kernels by the number
 of products they sum

---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..ff6eb92 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,10 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width * bitpacked_input_shape.Dims(3) /
+      bconv2d_params->groups;
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0


From 462a2a072cbca2a7481761b10b840efecebcc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 23/25] fix: a conversion pass that fails without a diagnostic
 is a failed conversion

---
 larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
index be080ce..753f661 100644
--- a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
+++ b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
@@ -93,7 +93,9 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
 
   tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pass_manager);
   if (mlir::failed(pass_manager.run(module))) {
-    return statusHandler.ConsumeStatus();
+    // A pass may fail without a diagnostic.
+    return statusHandler.Combine(
+        absl::InternalError("Preparing the TensorFlow graph failed."));
   }
 
   // Freeze variables if a session is provided.
-- 
2.43.0


From c646622c6c8a725665725c87797342bbed617fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:45 +0000
Subject: [PATCH 24/25] fix: round int8 outputs of the 32-bit Arm kernel to the
 nearest integer

The conversion to fixed point keeps 8 fractional bits only, so that a value
just beyond a half (as -10.503) is rounded to the other side (-10).
---
 .../core/bgemm/kernels_arm32.h                | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/larq_compute_engine/core/bgemm/kernels_arm32.h b/larq_compute_engine/core/bgemm/kernels_arm32.h
index d527dcf..a9f9c2b 100644
--- a/larq_compute_engine/core/bgemm/kernels_arm32.h
+++ b/larq_compute_engine/core/bgemm/kernels_arm32.h
@@ -373,19 +373,26 @@ IF_INT8_OUTPUT(
       // truncation (rounding-to-zero) behaviour was observed instead. It's
       // unclear what the issue is - perhaps QEMU doesn't correctly emulate the
       // rounding behaviour?
-      //     The work-around is to first convert from float to fixed-point (24
-      // integer bits, 8 fractional bits)...
-      "vcvt.s32.f32 q8, q8, #8\n"
-      "vcvt.s32.f32 q9, q9, #8\n"
-      "vcvt.s32.f32 q10, q10, #8\n"
-      "vcvt.s32.f32 q11, q11, #8\n"
-      // ...and then use "vector saturating shift right and narrow, by immediate
-      // value, with rounding" instructions to round to the nearest integer and
-      // simultaneously narrow the result to int16.
-      "vqrshrn.s32 d16, q8, #8\n"
-      "vqrshrn.s32 d18, q9, #8\n"
-      "vqrshrn.s32 d20, q10, #8\n"
-      "vqrshrn.s32 d22, q11, #8\n"
+      //     The work-around is to first convert from float to fixed-point (8
+      // integer bits, 24 fractional bits, which saturates outside of the int8
+      // range and is precise enough not to move any value across a rounding
+      // boundary)...
+      "vcvt.s32.f32 q8, q8, #24\n"
+      "vcvt.s32.f32 q9, q9, #24\n"
+      "vcvt.s32.f32 q10, q10, #24\n"
+      "vcvt.s32.f32 q11, q11, #24\n"
+      // ...and then use "vector shift right, by immediate value, with rounding"
+      // instructions to round to the nearest integer.
+      "vrshr.s32 q8, q8, #24\n"
+      "vrshr.s32 q9, q9, #24\n"
+      "vrshr.s32 q10, q10, #24\n"
+      "vrshr.s32 q11, q11, #24\n"
+
+      // Narrow to int16 with "signed saturating extract narrow" instructions.
+      "vqmovn.s32 d16, q8\n"
+      "vqmovn.s32 d18, q9\n"
+      "vqmovn.s32 d20, q10\n"
+      "vqmovn.s32 d22, q11\n"
 
       // Narrow to int8 with "signed saturating extract narrow" instructions.
       "vqmovn.s16 d16, q8\n"
-- 
2.43.0


From ff96e1c296abd6438f2305d37591811c5acbfa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:04 +0000
Subject: [PATCH 25/25] fix: configure.py: report Python's version in full

sys.version[:3] is 3.1 for 3.10 and later.
---
 configure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/configure.py b/configure.py
index 1aae365..41e91bf 100755
--- a/configure.py
+++ b/configure.py
@@ -303,7 +303,13 @@ def get_python_path(environ_cp, python_bin_path):
 
 def get_python_version(python_bin_path):
     """Get the python version."""
-    return run_shell([python_bin_path, "-c", "import sys; print(sys.version[:3])"])
+    return run_shell(
+        [
+            python_bin_path,
+            "-c",
+            "import sys; print('{}.{}'.format(*sys.version_info[:2]))",
+        ]
+    )
 
 
 def setup_python(environ_cp):
-- 
2.43.0

